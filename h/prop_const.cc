// C25: option characters, enumeration constants and element sizes.
#include "lib.h"

namespace {
struct Row { const char *chars; int value; char back; };       // accepted characters, constant, LAPACK letter of the constant (0: none)
struct Translator { const char *name; plasma_enum_t (*f)(char); std::vector<Row> rows; int other; };
const std::vector<Translator> &translators()
{
    static const std::vector<Translator> t = {
        {"diag", plasma_diag_const, {{"Nn", PlasmaNonUnit, 'N'}, {"Uu", PlasmaUnit, 'U'}}, PlasmaInvalid},
        {"direct", plasma_direct_const, {{"Ff", PlasmaForward, 'F'}, {"Bb", PlasmaBackward, 'B'}}, PlasmaInvalid},
        {"norm", plasma_norm_const, {{"Oo1", PlasmaOneNorm, 'O'}, {"2", PlasmaTwoNorm, 'T'}, {"FfEe", PlasmaFrobeniusNorm, 'F'}, {"Ii", PlasmaInfNorm, 'I'}, {"Mm", PlasmaMaxNorm, 'M'}}, PlasmaInvalid},
        {"side", plasma_side_const, {{"Ll", PlasmaLeft, 'L'}, {"Rr", PlasmaRight, 'R'}}, PlasmaInvalid},
        {"storev", plasma_storev_const, {{"Cc", PlasmaColumnwise, 'C'}, {"Rr", PlasmaRowwise, 'R'}}, PlasmaInvalid},
        {"trans", plasma_trans_const, {{"Nn", PlasmaNoTrans, 'N'}, {"Tt", PlasmaTrans, 'T'}, {"Cc", PlasmaConjTrans, 'C'}}, PlasmaInvalid},
        {"uplo", plasma_uplo_const, {{"Uu", PlasmaUpper, 'U'}, {"Ll", PlasmaLower, 'L'}}, PlasmaGeneral},
        {"job", plasma_job_const, {{"Aa", PlasmaAllVec, 0}, {"Ss", PlasmaSomeVec, 0}, {"Vv", PlasmaVec, 0}, {"Nn", PlasmaNoVec, 0}, {"Ii", PlasmaIVec, 0}}, PlasmaInvalid},
        {"range", plasma_range_const, {{"Aa", PlasmaRangeAll, 0}, {"Vv", PlasmaRangeV, 0}, {"Ii", PlasmaRangeI, 0}}, PlasmaInvalid},
    };
    return t;
}
int model(const Translator &t, int ch, char *back)
{
    for (auto &r : t.rows) if (ch && strchr(r.chars, ch)) { *back = r.back; return r.value; }
    *back = 0;
    return t.other;
}
char letter(int k)      // LAPACK letter of a constant, 0 where it has none
{
    for (auto &t : translators()) for (auto &r : t.rows) if (r.value == k) return r.back;
    return k == PlasmaGeneral ? 'G' : k == PlasmaW ? 'W' : k == PlasmaA2 ? 'A' : 0;
}
void c25(Ctx &c)
{
    const auto &ts = translators();
    char b[160];
    int kind = (int)c.s.u(4);
    if (kind < 2) {            // a string of characters through one or several translators
        int len = 1 + (int)c.s.u(8);
        const char *likely = "NnTtCcUuLlRrOo12FfEeIiMmBbAaSsVvGgXx03 ";
        for (int i = 0; i < len; i++) {
            auto &t = ts[c.s.u((uint32_t)ts.size())];
            int ch = kind ? (int)c.s.u(256) : likely[c.s.u((uint32_t)strlen(likely))];
            char back;
            int want = model(t, ch, &back), got = t.f((char)ch);
            snprintf(b, sizeof b, "%s(0x%02x) ", t.name, ch);
            c.desc << b;
            if (got != want) { snprintf(b, sizeof b, "plasma_%s_const(0x%02x) is %d, documented %d", t.name, ch, got, want); c.fail(std::string("const.") + t.name, b); }
            if (back) {
                if (lapack_const(got) != back) { snprintf(b, sizeof b, "lapack_const(%d) is 0x%02x, expected '%c'", got, lapack_const(got), back); c.fail("const.back", b); }
                if (back != 'T' && t.f(back) != got) c.fail("const.roundtrip", std::string("the letter of a ") + t.name + " constant does not translate back to it");
                c.nontrivial = true;
            }
        }
        c.label(kind ? "any character" : "option characters");
    }
    else if (kind == 2) {      // the inverse table, at and beyond its ends
        int k = c.s.u(3) ? (int)c.s.u(540) - 10 : (int)(c.s.u(1u << 31)) * (c.s.u(2) ? -1 : 1);
        char want = letter(k), got = lapack_const(k);
        snprintf(b, sizeof b, "lapack_const(%d)", k);
        c.desc << b;
        if (got != want) { snprintf(b, sizeof b, "lapack_const(%d) is 0x%02x, expected 0x%02x", k, got, want); c.fail("const.back", b); }
        c.nontrivial = want != 0;
        c.label("inverse");
    }
    else {                     // element sizes
        static const struct { int dt; size_t n; } E[] = {{PlasmaByte, 1}, {PlasmaInteger, sizeof(int)}, {PlasmaRealFloat, 4}, {PlasmaRealDouble, 8}, {PlasmaComplexFloat, 8}, {PlasmaComplexDouble, 16}};
        auto &e = E[c.s.u(6)];
        c.desc << "element size of type " << e.dt;
        if ((size_t)plasma_element_size(e.dt) != e.n) c.fail("const.size", "wrong element size for data type " + std::to_string(e.dt));
        c.nontrivial = true;
        c.label("element size");
    }
}
}
static RegProp rp25({"C25", "at least one character or constant that has a documented translation", c25, 400000, 4000000});
