// C17, C19: character data against pinned copies of the Unicode files.
#include "udata.h"
#include <fsdyn/charstr.h>

namespace {
void ucd_sweep(Sweep &s)
{
    for (int c = 0; c < 0x110000; c++) {
        if (!s.mine(c >> 8))
            continue;
        if (!(c & 0xffff))
            s.tick();
        s.where(c);
        int cat = charstr_unicode_category(c);
        CHECK(cat == ud_cat[c], "ucd:category", "category of U+%04X is %d, expected %d", c, cat, ud_cat[c]);
        int cc = charstr_unicode_canonical_combining_class(c);
        CHECK(cc == ud_ccc[c], "ucd:ccc", "combining class of U+%04X is %d, expected %d", c, cc, ud_ccc[c]);
        int nf = charstr_allowed_unicode_normal_forms(c);
        CHECK(nf == ud_nf[c], "ucd:nf", "normal-form flags of U+%04X are %x, expected %x", c, nf, ud_nf[c]);
        auto l = ud_lower.find(c);
        int wl = l == ud_lower.end() ? c : l->second;
        int gl = charstr_naive_lcase_unicode(c);
        CHECK(gl == wl, "ucd:lower", "lower case of U+%04X is U+%04X, expected U+%04X", c, gl, wl);
        auto u = ud_upper.find(c);
        int wu = u == ud_upper.end() ? c : u->second;
        int gu = charstr_naive_ucase_unicode(c);
        CHECK(gu == wu, "ucd:upper", "upper case of U+%04X is U+%04X, expected U+%04X", c, gu, wu);
        s.evals += 5;
        s.distinct++;
        EV("ucd.codepoint");
        if (wl != c)
            EV("ucd.lower");
        if (wu != c)
            EV("ucd.upper");
        if (cc)
            EV("ucd.mark");
        if (nf)
            EV("ucd.nf");
        if (!cat)
            EV("ucd.unassigned");
    }
    s.sample("every code point from 0 to U+10FFFF");
}
// the functions are pure: any order, any repetition
void ucd_case(Case &c)
{
    Gen &g = c.g;
    for (int i = 0; i < 200; i++) {
        int cp = g.chance(1, 3) ? (int) g.below(0x110000) : rnd_cp(g);
        c.mix(cp);
        c.evals++;
        bool ok = charstr_unicode_category(cp) == ud_cat[cp] &&
            charstr_unicode_canonical_combining_class(cp) == ud_ccc[cp] &&
            charstr_allowed_unicode_normal_forms(cp) == ud_nf[cp] &&
            charstr_naive_lcase_unicode(cp) == (ud_lower.count(cp) ? ud_lower.at(cp) : cp) &&
            charstr_naive_ucase_unicode(cp) == (ud_upper.count(cp) ? ud_upper.at(cp) : cp);
        CHECK(ok, "ucd:order", "data of U+%04X wrong when asked for in random order", cp);
    }
    c.nontrivial = true;
    c.text = "200 code points in random order";
    EV("ucd.random");
}
const char *const NAMES[] = {"valid", "mapped", "ignored", "deviation", "disallowed", "disallowed_STD3_valid",
                             "disallowed_STD3_mapped"};
void check_idna_cp(int c)
{
    bool is[7] = {charstr_idna_status_is_valid(c), charstr_idna_status_is_mapped(c), charstr_idna_status_is_ignored(c),
                  charstr_idna_status_is_deviation(c), charstr_idna_status_is_disallowed(c),
                  charstr_idna_status_is_disallowed_STD3_valid(c), charstr_idna_status_is_disallowed_STD3_mapped(c)};
    for (int i = 0; i < 7; i++)
        CHECK(is[i] == (i == ud_idna[c]), "idna:status", "U+%04X: status %s is %s, the table says %s", c, NAMES[i],
              is[i] ? "true" : "false", NAMES[ud_idna[c]]);
    const char *name = charstr_idna_status(c);
    CHECK(name && !strcmp(name, NAMES[ud_idna[c]]), "idna:statusname", "U+%04X: status name %s, the table says %s", c,
          name ? name : "(null)", NAMES[ud_idna[c]]);
    const char *m = charstr_idna_mapping(c);
    auto it = ud_map.find(c);
    if (it == ud_map.end()) {
        // a deviation may map to nothing: both ways of saying so are fine
        CHECK(!m || (ud_idna[c] == 3 && !*m), "idna:mapping", "U+%04X has a mapping \"%s\", the table has none", c, m);
    } else {
        CHECK(m && it->second == m, "idna:mapping", "U+%04X maps to %s, the table says %s", c,
              m ? hexdump(m, strlen(m)).c_str() : "(null)", hexdump(it->second.data(), it->second.size()).c_str());
        EV("idna.mapping");
    }
}
void idna_sweep(Sweep &s)
{
    for (int c = 0; c < 0x110000; c++) {
        if (!s.mine(c >> 8))
            continue;
        if (!(c & 0xfff))
            s.tick();
        s.where(c);
        check_idna_cp(c);
        EV("idna.codepoint");
        s.evals += 9;
        s.distinct++;
    }
    s.sample("every code point from 0 to U+10FFFF");
}
void idna_cp_case(Case &c)
{
    for (int i = 0; i < 100; i++) {
        int cp = c.g.chance(1, 3) ? (int) c.g.below(0x110000) : c.g.chance(1, 2) ? c.g.pick(ud_mapped) : rnd_cp(c.g);
        c.mix(cp);
        c.evals++;
        check_idna_cp(cp);
    }
    c.nontrivial = true;
    c.text = "100 code points in random order";
}
} // namespace
REG_SWEEP("C17", ucd_sweep, ucd_sweep, 1, 1, 0);
REG_CASES("C17", ucd_random, ucd_case, 20000, 2000, 10, THR);
REG_SWEEP("C19", idna_table_sweep, idna_sweep, 1, 1, 0);
REG_CASES("C19", idna_table_random, idna_cp_case, 20000, 2000, 10, THR);
