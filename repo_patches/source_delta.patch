From bbf18ae019420e60c5feeb53689a366e93f2d6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:44 +0000
Subject: [PATCH 1/9] fix: choosel and chooser select the right bits for every
 width and count

---
 include/ygopen/bit.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/ygopen/bit.hpp b/include/ygopen/bit.hpp
index bf98a79..5ddb45b 100644
--- a/include/ygopen/bit.hpp
+++ b/include/ygopen/bit.hpp
@@ -45,11 +45,9 @@ template<typename T>
 	static_assert(std::is_unsigned_v<T>);
 	T chosen = 0U;
 	unsigned i = std::numeric_limits<T>::digits;
-	while(i != 0U)
+	while(i != 0U && popcnt(chosen) < count)
 	{
-		chosen |= x & (1U << (i - 1U));
-		if(popcnt(chosen) >= count)
-			break;
+		chosen |= x & (T{1} << (i - 1U));
 		i--;
 	}
 	return chosen;
@@ -65,7 +63,7 @@ template<typename T>
 	unsigned i = 0;
 	while(i < std::numeric_limits<T>::digits && popcnt(chosen) < count)
 	{
-		chosen |= x & (1U << i);
+		chosen |= x & (T{1} << i);
 		i++;
 	}
 	return chosen;
-- 
2.43.0


From 7f5db7afd1fdf7ebbadf4984706172ca78a0a6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:36 +0000
Subject: [PATCH 2/9] fix: card_swap exchanges materials by overlay sequence on
 both sides

When the first place is a material, card_swap indexed the material stack
with the zone sequence (seq) instead of the overlay sequence (oseq).
---
 include/ygopen/client/frame.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ygopen/client/frame.hpp b/include/ygopen/client/frame.hpp
index 2d99318..caf5cb1 100644
--- a/include/ygopen/client/frame.hpp
+++ b/include/ygopen/client/frame.hpp
@@ -397,11 +397,11 @@ public:
 			}
 			else if(!is_a_not_mat && is_b_not_mat)
 			{
-				std::swap(za.materials[a.seq()], zb.card);
+				std::swap(za.materials[a.oseq()], zb.card);
 			}
 			else // !is_a_not_mat && !is_b_not_mat
 			{
-				std::swap(za.materials[a.seq()], zb.materials[b.oseq()]);
+				std::swap(za.materials[a.oseq()], zb.materials[b.oseq()]);
 			}
 		}
 	}
-- 
2.43.0


From 41649f226e9cb2008f98b68c5b502b2bd078f5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:28 +0000
Subject: [PATCH 3/9] fix: LimboFrame's pile_resize keeps the cards beyond the
 new size for undo

---
 include/ygopen/client/frame_limbo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ygopen/client/frame_limbo.hpp b/include/ygopen/client/frame_limbo.hpp
index b7cd24f..17c4cab 100644
--- a/include/ygopen/client/frame_limbo.hpp
+++ b/include/ygopen/client/frame_limbo.hpp
@@ -99,7 +99,7 @@ public:
 		{
 			size_t diff = p.size() - count;
 			rsz_op.slice.resize(diff);
-			std::copy(p.cbegin() + diff, p.cend(), rsz_op.slice.begin());
+			std::copy(p.cbegin() + count, p.cend(), rsz_op.slice.begin());
 			p.resize(count);
 		}
 		assert(p.size() == count);
-- 
2.43.0


From 57d8683b3b005dda3a19f12368d01b2f1b24e3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 4/9] fix: zone answers address field and pendulum zones as the
 core does

The core numbers them as the last spell zone sequences; their own location
bits do not even fit the byte written.
---
 src/codec/edo9300_ocgcore_decode.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/codec/edo9300_ocgcore_decode.cpp b/src/codec/edo9300_ocgcore_decode.cpp
index 1270796..2960287 100644
--- a/src/codec/edo9300_ocgcore_decode.cpp
+++ b/src/codec/edo9300_ocgcore_decode.cpp
@@ -6,6 +6,7 @@
 #include "ygopen/codec/edo9300_ocgcore_decode.hpp"
 
 #include <cstring>
+#include <ygopen/duel/constants/location.hpp>
 #include <ygopen/duel/constants/phase.hpp>
 #include <ygopen/proto/duel/answer.hpp>
 #include <ygopen/proto/duel/msg.hpp>
@@ -217,9 +218,24 @@ auto decode_one_answer(Proto::Duel::Msg::Request const& request,
 		auto* ptr = out.data();
 		for(auto const& p : places)
 		{
+			// NOTE: In the core, field and pendulum zones are the last
+			// sequences of the spell zone, see `fix_spell_loc_seq`.
+			using namespace YGOpen::Duel;
+			auto loc = p.loc();
+			auto seq = p.seq();
+			if(loc == LOCATION_FIELD_ZONE)
+			{
+				loc = LOCATION_SPELL_ZONE;
+				seq += 5U;
+			}
+			else if(loc == LOCATION_PENDULUM_ZONE)
+			{
+				loc = LOCATION_SPELL_ZONE;
+				seq += 6U;
+			}
 			write(ptr, static_cast<int8_t>(p.con()));
-			write(ptr, static_cast<int8_t>(p.loc()));
-			write(ptr, static_cast<int8_t>(p.seq()));
+			write(ptr, static_cast<int8_t>(loc));
+			write(ptr, static_cast<int8_t>(seq));
 		}
 		break;
 	}
-- 
2.43.0


From 45a1364cb334621963f7dee52489e0aa6f40e5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:11 +0000
Subject: [PATCH 5/9] fix: race answers keep all 64 bits

---
 src/codec/edo9300_ocgcore_decode.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/codec/edo9300_ocgcore_decode.cpp b/src/codec/edo9300_ocgcore_decode.cpp
index 2960287..38a7b30 100644
--- a/src/codec/edo9300_ocgcore_decode.cpp
+++ b/src/codec/edo9300_ocgcore_decode.cpp
@@ -177,7 +177,10 @@ auto decode_one_answer(Proto::Duel::Msg::Request const& request,
 	}
 	case Answer::kSelectRace:
 	{
-		response_i(answer.select_race());
+		// NOTE: Races are 64 bits wide in the core.
+		out.resize(sizeof(uint64_t));
+		auto* ptr = out.data();
+		write(ptr, static_cast<uint64_t>(answer.select_race()));
 		break;
 	}
 	case Answer::kSelectRockPaperScissors:
-- 
2.43.0


From 945fbcec624434283d1fc94cf6c50ea23a2c9c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 6/9] fix: materials in field and pendulum zones keep their
 zone on field reload

---
 src/codec/edo9300_ocgcore_encode.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/codec/edo9300_ocgcore_encode.cpp b/src/codec/edo9300_ocgcore_encode.cpp
index c32e1cd..03a7d1c 100644
--- a/src/codec/edo9300_ocgcore_encode.cpp
+++ b/src/codec/edo9300_ocgcore_encode.cpp
@@ -889,18 +889,11 @@ auto encode_one(google::protobuf::Arena& arena, IEncodeContext& context,
 					if(read<uint8_t>(data, "has card") == 0U)
 						continue;
 					skip<CSPos>(data, "position (current)");
-					if(loc == LOCATION_SPELL_ZONE)
-					{
-						auto const [f_loc, f_seq] = fix_spell_loc_seq(loc, seq);
-						add_one(f_loc, f_seq, OSEQ_INVALID);
-					}
-					else
-					{
-						add_one(loc, seq, OSEQ_INVALID);
-					}
+					auto const [f_loc, f_seq] = fix_spell_loc_seq(loc, seq);
+					add_one(f_loc, f_seq, OSEQ_INVALID);
 					auto const mats = read<CCount>(data, "xyz mats count");
 					for(CCount oseq = 0U; oseq < mats; oseq++)
-						add_one(loc, seq, static_cast<COSeq>(oseq));
+						add_one(f_loc, f_seq, static_cast<COSeq>(oseq));
 				}
 			};
 			auto add_pile = [&](Location loc, CCount count)
-- 
2.43.0


From e18bfc259ee97bdc3a3769ce9198ea2bc0c80f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 7/9] fix: materials of a card that left are always taken from
 the zone it left

---
 src/codec/edo9300_ocgcore_encode.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/codec/edo9300_ocgcore_encode.cpp b/src/codec/edo9300_ocgcore_encode.cpp
index 03a7d1c..390f89e 100644
--- a/src/codec/edo9300_ocgcore_encode.cpp
+++ b/src/codec/edo9300_ocgcore_encode.cpp
@@ -1384,6 +1384,15 @@ auto encode_one(google::protobuf::Arena& arena, IEncodeContext& context,
 		bool const is_curr_limbo = curr.loc() == LOCATION_UNSPECIFIED;
 		bool const is_prev_not_material = prev.oseq() < 0;
 		bool const is_curr_not_material = curr.oseq() < 0;
+		// Materials of a card that left the field remain on the zone it left.
+		auto from = prev;
+		if(!is_prev_not_material && is_pile(prev))
+		{
+			auto owner = prev;
+			owner.set_oseq(OSEQ_INVALID);
+			from = context.get_xyz_left(owner);
+			from.set_oseq(prev.oseq());
+		}
 		if(is_prev_limbo && is_curr_limbo)
 		{
 			// Corrupted move (core bug). Only handled because of older replays.
@@ -1406,13 +1415,13 @@ auto encode_one(google::protobuf::Arena& arena, IEncodeContext& context,
 				context.xyz_left(prev, Place{});
 			auto* card = create_event()->mutable_card();
 			card->set_reason(reason);
-			*card->mutable_remove()->add_places() = prev;
+			*card->mutable_remove()->add_places() = from;
 			result.state = EncodeOneResult::State::OK;
 		}
 		else if(!is_curr_not_material && is_pile(curr))
 		{
 			// Attaching outside field.
-			context.xyz_mat_defer(prev);
+			context.xyz_mat_defer(from);
 			result.state = EncodeOneResult::State::SWALLOWED;
 		}
 		else if(is_curr_not_material && !is_pile(curr))
@@ -1438,21 +1447,17 @@ auto encode_one(google::protobuf::Arena& arena, IEncodeContext& context,
 			}
 			// Add actual card move.
 			auto* op = card->mutable_move()->add_ops();
-			*op->mutable_old_place() = prev;
+			*op->mutable_old_place() = from;
 			*op->mutable_new_place() = curr;
 			result.state = EncodeOneResult::State::OK;
 		}
 		else if(!is_prev_not_material && is_pile(prev))
 		{
 			// Deattaching outside field.
-			auto const oseq = prev.oseq();
 			auto* card = create_event()->mutable_card();
 			auto* op = card->mutable_move()->add_ops();
 			card->set_reason(reason);
-			auto* old_place = op->mutable_old_place();
-			prev.set_oseq(OSEQ_INVALID);
-			*old_place = context.get_xyz_left(prev);
-			old_place->set_oseq(oseq);
+			*op->mutable_old_place() = from;
 			*op->mutable_new_place() = curr;
 			result.state = EncodeOneResult::State::OK;
 		}
@@ -1462,7 +1467,7 @@ auto encode_one(google::protobuf::Arena& arena, IEncodeContext& context,
 			auto* card = create_event()->mutable_card();
 			auto* op = card->mutable_move()->add_ops();
 			card->set_reason(reason);
-			*op->mutable_old_place() = prev;
+			*op->mutable_old_place() = from;
 			*op->mutable_new_place() = curr;
 			// Card with xyz materials left the field.
 			if(!is_pile(prev) && is_pile(curr) && context.has_xyz_mat(prev))
-- 
2.43.0


From f8db5575524660af4e27233549375aecd8207e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 8/9] fix: encode context answers before anything was recorded

---
 include/ygopen/server/basic_encode_context.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ygopen/server/basic_encode_context.hpp b/include/ygopen/server/basic_encode_context.hpp
index dedac39..2d12328 100644
--- a/include/ygopen/server/basic_encode_context.hpp
+++ b/include/ygopen/server/basic_encode_context.hpp
@@ -47,7 +47,8 @@ public:
 
 	auto get_xyz_left(Place const& left) const noexcept -> Place override
 	{
-		return left_.find(left)->second;
+		auto const it = left_.find(left);
+		return it != left_.end() ? it->second : left;
 	}
 
 	auto match_win_reason(uint32_t reason) noexcept -> void override
@@ -99,7 +100,7 @@ private:
 
 	BoardType board_;
 
-	uint32_t match_win_reason_;
+	uint32_t match_win_reason_{};
 	std::map<Place, Place, YGOpen::Proto::Duel::PlaceLess> left_;
 	std::vector<Place> deferred_;
 };
-- 
2.43.0


From 2eef38549d137ef7f3503d2e93695c8a4b8b0830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 9/9] fix: pile resize events are applied and undone

---
 include/ygopen/client/parse_event.hpp      | 6 ++++++
 include/ygopen/client/undo_parse_event.hpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/include/ygopen/client/parse_event.hpp b/include/ygopen/client/parse_event.hpp
index e4f4c89..6217052 100644
--- a/include/ygopen/client/parse_event.hpp
+++ b/include/ygopen/client/parse_event.hpp
@@ -248,6 +248,12 @@ auto parse_event(Board& board, Proto::Duel::Msg::Event const& event) noexcept
 				frame.pile_swap(op.place_a(), op.place_b());
 			break;
 		}
+		case Msg::Event::Pile::kResize:
+		{
+			for(auto const& op : pile.resize().ops())
+				frame.pile_resize(op.place(), op.count());
+			break;
+		}
 		default:
 			break;
 		}
diff --git a/include/ygopen/client/undo_parse_event.hpp b/include/ygopen/client/undo_parse_event.hpp
index 6e1316a..01819b5 100644
--- a/include/ygopen/client/undo_parse_event.hpp
+++ b/include/ygopen/client/undo_parse_event.hpp
@@ -186,6 +186,12 @@ auto undo_parse_event(UndoableBoard& board,
 				frame.pile_swap(op.place_a(), op.place_b());
 			break;
 		}
+		case Msg::Event::Pile::kResize:
+		{
+			for(auto const& op : reverse(pile.resize().ops()))
+				frame.undo_pile_resize(op.place(), op.count());
+			break;
+		}
 		default:
 			break;
 		}
-- 
2.43.0

