// CSA types by GROUP (1..6 byte alphabets, 7..9 integer alphabets)
#pragma once
#include "csagen.hpp"
#define BYTE 1
#if GROUP == 1
typedef Types<csa_wt<>, csa_wt<Huff, 1, 1>, csa_wt<Huff, 2, 3>, csa_wt<Huff, 5, 2, sa_order_sa_sampling<>, isa_sampling<>, succinct_byte_alphabet<>>> Ty;
#elif GROUP == 2
typedef Types<csa_wt<Huff, 4, 4, text_order_sa_sampling<>>, csa_wt<Huff, 3, 3, text_order_sa_sampling<>, text_order_isa_sampling_support<>>, csa_wt<Huff, 2, 2, text_order_sa_sampling<sd_vector<>>, text_order_isa_sampling_support<inv_perm_support<2>>>, csa_wt<Huff, 4, 8, sa_bwt_sampling<>>> Ty;
#elif GROUP == 3
typedef Types<csa_wt<Huff, 4, 4, fuzzy_sa_sampling<>>, csa_wt<Huff, 3, 3, fuzzy_sa_sampling<>, fuzzy_isa_sampling_support<>>, csa_wt<Huff, 2, 2, fuzzy_sa_sampling<bit_vector, bit_vector>, fuzzy_isa_sampling_support<>>, csa_wt<Huff, 1, 1, fuzzy_sa_sampling<>, fuzzy_isa_sampling_support<>>> Ty;
#elif GROUP == 4
typedef Types<csa_sada<>, csa_sada<enc_vector<coder::fibonacci, 8>, 4, 4>, csa_sada<enc_vector<coder::elias_gamma, 3>, 1, 2>, csa_sada<enc_vector<coder::elias_delta, 2>, 3, 3, text_order_sa_sampling<>, isa_sampling<>>> Ty;
#elif GROUP == 5
typedef Types<csa_sada<enc_vector<coder::elias_delta, 16>, 3, 3, text_order_sa_sampling<>, text_order_isa_sampling_support<>>, csa_sada<enc_vector<>, 5, 5, fuzzy_sa_sampling<>, fuzzy_isa_sampling_support<>>, csa_sada<enc_vector<coder::elias_delta, 200000>, 2, 2>, csa_bitcompressed<>, csa_bitcompressed<succinct_byte_alphabet<bit_vector, rank_support_v<>, select_support_mcl<>>>> Ty;
#elif GROUP == 6
typedef Types<csa_wt<wt_blcd<>, 3, 5, sa_order_sa_sampling<>, isa_sampling<>, succinct_byte_alphabet<bit_vector, rank_support_v<>, select_support_mcl<>>>, csa_wt<wt_hutu<rrr_vector<63>>, 6, 7>, csa_wt<wt_rlmn<>, 4, 4>, csa_sada<enc_vector<coder::elias_delta, 5>, 7, 64, sa_order_sa_sampling<>, isa_sampling<>, succinct_byte_alphabet<>>> Ty;
#else
#undef BYTE
#if GROUP == 7
typedef Types<csa_wt<wt_int<>, 3, 4, sa_order_sa_sampling<>, isa_sampling<>, int_alphabet<>>, csa_sada<enc_vector<>, 2, 5, sa_order_sa_sampling<>, isa_sampling<>, int_alphabet<>>, csa_bitcompressed<int_alphabet<>>> Ty;
#elif GROUP == 8
typedef Types<csa_wt<wt_int<rrr_vector<63>>, 8, 8, sa_order_sa_sampling<>, isa_sampling<>, int_alphabet<>>, csa_wt<wt_int<>, 3, 3, text_order_sa_sampling<>, text_order_isa_sampling_support<>, int_alphabet<>>, csa_sada<enc_vector<>, 4, 4, text_order_sa_sampling<>, isa_sampling<>, int_alphabet<>>> Ty;
#elif GROUP == 9
typedef Types<csa_wt<wm_int<>, 3, 3, fuzzy_sa_sampling<>, fuzzy_isa_sampling_support<>, int_alphabet<>>, csa_wt<wt_ap<>, 4, 4, sa_order_sa_sampling<>, isa_sampling<>, int_alphabet<>>, csa_wt<wt_gmr<>, 4, 4, sa_order_sa_sampling<>, isa_sampling<>, int_alphabet<bit_vector, rank_support_v<>, select_support_mcl<>, int_vector<>>>, csa_wt_int<>, csa_sada_int<>> Ty;
#endif
#endif
#ifdef BYTE
enum { W = 8 };
#else
enum { W = 0 };
#endif

