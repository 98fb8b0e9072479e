// CST types by GROUP (1..7 byte alphabets, 8..9 integer alphabets); shared by C18, C19, C20, C21, C12, C13.
#pragma once
#include "csagen.hpp"
#define BYTE 1
typedef csa_wt<Huff, 4, 4> CstCsa;
typedef csa_sada<enc_vector<coder::elias_delta, 8>, 4, 4> CstSada;
#if GROUP == 1 || GROUP == 10
typedef Types<cst_sct3<>, cst_sct3<CstCsa, lcp_support_sada<>>> Ty;
#elif GROUP == 2
typedef Types<cst_sct3<CstSada, lcp_support_tree<>>, cst_sct3<CstCsa, lcp_support_tree2<3>>> Ty;
#elif GROUP == 3
typedef Types<cst_sct3<csa_bitcompressed<>, lcp_bitcompressed<>, bp_support_gg<>>, cst_sct3<CstCsa, lcp_byte<>, bp_support_g<>>> Ty;
#elif GROUP == 4
typedef Types<cst_sada<>, cst_sada<CstCsa, lcp_dac<4>>> Ty;
#elif GROUP == 5
typedef Types<cst_sada<CstCsa, lcp_support_tree2<2>>, cst_sada<CstSada, lcp_support_tree<>, bp_support_gg<>>> Ty;
#elif GROUP == 6
typedef Types<cst_fully<>, cst_fully<CstSada, 4>> Ty;
#define FULLY 1
#elif GROUP == 7
typedef Types<cst_sct3<CstCsa, lcp_vlc<>>, cst_sct3<CstCsa, lcp_wt<>>> Ty;
#else
#undef BYTE
#if GROUP == 8
typedef Types<cst_sct3<csa_wt<wt_int<>, 4, 4, sa_order_sa_sampling<>, isa_sampling<>, int_alphabet<>>>, cst_sada<csa_sada<enc_vector<>, 4, 4, sa_order_sa_sampling<>, isa_sampling<>, int_alphabet<>>>> Ty;
#elif GROUP == 9
typedef Types<cst_sct3<csa_sada_int<>, lcp_support_tree2<>>, cst_sada<csa_wt_int<>, lcp_support_sada<>>> Ty;
#endif
#endif
#ifdef BYTE
enum { W = 8 };
#else
enum { W = 0 };
#endif
