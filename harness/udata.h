// Reference Unicode 13.0 data and algorithms for the oracles.
#pragma once
#include "core.h"
typedef std::vector<int> Cps;

extern const u8 *ud_cat, *ud_ccc, *ud_nf, *ud_excl, *ud_idna; // per code point
struct Pair {
    int a, b; // b == 0: singleton
};
extern std::map<int, int> ud_lower, ud_upper;
extern std::map<int, Pair> ud_dec;
extern std::map<std::pair<int, int>, int> ud_comp; // primary composites
extern std::map<int, std::string> ud_map;
extern std::vector<int> ud_marks;   // code points with ccc != 0
extern std::vector<int> ud_decs;    // keys of ud_dec
extern std::vector<int> ud_valid_letters; // IDNA-valid letters with ccc 0
extern std::vector<int> ud_mapped, ud_ignored, ud_disallowed;
extern std::vector<int> ud_nfc_maybe;

inline bool scalar(int c)
{
    return c >= 0 && c <= 0x10ffff && !(c >= 0xd800 && c <= 0xdfff);
}
// length of the well-formed sequence at p (n bytes available), or 0
unsigned ref_decode(const u8 *p, size_t n, int *cp);
std::string ref_encode(int cp);
bool ref_decode_all(const std::string &s, Cps &out); // NUL is a character
std::string ref_encode_all(const Cps &c);
bool ref_valid(const std::string &s);
Cps ref_nfd(const Cps &in);
Cps ref_nfc(const Cps &in);
// quick check: 0 allowed, 1 disallowed, 2 maybe
int ref_quick(const Cps &in, int dis, int maybe);
bool ref_punycode(const Cps &label, std::string &out);

// random text
int rnd_cp(Gen &g);              // any scalar value except 0, interesting ones preferred
Cps rnd_norm_text(Gen &g, unsigned max); // text that stresses normalization
