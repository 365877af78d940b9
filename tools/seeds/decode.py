PRE = r'''
#include <ygopen/codec/edo9300_ocgcore_decode.hpp>
#include <ygopen/proto/duel/answer.hpp>
#include <ygopen/proto/duel/msg.hpp>
#include <cstdio>
#include <vector>
using namespace YGOpen::Proto::Duel;
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\n", #x); return 1; } } while(0)
'''
DE = 'src/codec/edo9300_ocgcore_decode.cpp'
SPECS = [
    dict(id='C22-a', prop='C22', edits=[(DE, "				out.resize((sizeof(int32_t) * 2U) + (sizeof(int16_t) * idx_sz));", "				auto const out_sz =\n					(sizeof(int32_t) * 2U) + (sizeof(int16_t) * idx_sz);\n				if(out.size() < out_sz)\n					out.resize(out_sz);")],
         demo=PRE + r'''int main() { Msg::Request r; r.mutable_select_card()->mutable_unique_range(); Answer a; a.mutable_select_card()->mutable_indexes()->add_values(3); std::vector<uint8_t> out(20, 9);
	YGOpen::Codec::Edo9300::OCGCore::decode_one_answer(r, a, out); CHECK(out.size() == 10); return 0; }''',
         needs='a reused output buffer that held a longer answer', breaks='stale bytes of the previous answer stay behind a list of selected cards'),
    dict(id='C22-b', prop='C22', edits=[(DE, "			response_i(((s & 0xFFFFU) << 16U) | (t & 0xFFFFU));", "			response_i((static_cast<int16_t>(s) << 16U) | (t & 0xFFU) |\n			           (s & 0x100U));")],
         demo=PRE + r'''int main() { Msg::Request r; r.mutable_select_idle(); Answer a; a.mutable_select_idle()->mutable_card_action()->set_action(Answer::SelectIdle::ACTION_SSET); a.mutable_select_idle()->mutable_card_action()->set_index(0x123); std::vector<uint8_t> out;
	YGOpen::Codec::Edo9300::OCGCore::decode_one_answer(r, a, out); CHECK(out.size() == 4 && out[0] == 4 && out[1] == 0 && out[2] == 0x23 && out[3] == 1); return 0; }''',
         needs='an action on a card with index 256 or higher', breaks='the action kind is corrupted by the card index'),
]
