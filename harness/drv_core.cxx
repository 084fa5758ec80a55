// tables: consonant tables and the tone rule; ops: syllable comparisons
#include "common.h"
#include "output/sylout-raw.h"
#include <map>
#include "thortho/thcons.h"
#include <cstring>
#include <set>
#include <map>
#include <tuple>
using namespace std;

static int Tables()
{
    for (int c = 0x0e01; c <= 0x0e2e; ++c) {
        if (c == 0x0e24 || c == 0x0e26) continue;
        printf ("T %x %s %s %s\n", c, nameof (CLASSES, InitConsClass (c)).c_str(),
                nameof (SOUNDS, InitConsSound (c)).c_str(), nameof (ENDS, EndConsClass (c)).c_str());
    }
    for (auto& c : CLASSES) for (auto& t : TONES) for (int d = 0; d < 2; ++d) for (int s = 0; s < 2; ++s)
        printf ("R %s %s %d %d %s\n", c.second, t.second, d, s,
                nameof (TONES, ToneFromWritten (c.first, t.first, d, s)).c_str());
    for (auto& e : ENDS) printf ("D %s %d\n", e.second, (int) IsDeadEndConsClass (e.first));
    for (auto& v : VOWELS) printf ("S %s %d\n", v.second, (int) IsShortVowel (v.first));
    return 0;
}

// ---- comparisons -------------------------------------------------------
typedef tuple<int, u16string, int, int, int, int, int> Key;    // position-free
static Key key (const Syl& s)
{
    if (s.isLiteral()) return Key (0, s.literal(), 0, 0, 0, 0, 0);
    return Key (1, u"", (int) s.iCons1(), (int) s.iCons2(), (int) s.vowel(), (int) s.eCons(), (int) s.tone());
}
static int cmp (const Syl& a, const Syl& b)
{
    Key x = key (a), y = key (b);
    if (x < y) return -1;
    if (y < x) return 1;
    return a.endPos() < b.endPos() ? -1 : a.endPos() > b.endPos() ? 1 : 0;
}
static int cmp (const SylString& a, const SylString& b)
{
    auto i = a.begin(); auto j = b.begin();
    for (; i != a.end() && j != b.end(); ++i, ++j) { int c = cmp (*i, *j); if (c) return c; }
    if (i == a.end()) return j == b.end() ? 0 : -1;
    return 1;
}
static bool eq (const Syl& a, const Syl& b) { return key (a) == key (b); }
static bool eq (const SylString& a, const SylString& b)
{
    auto i = a.begin(); auto j = b.begin();
    for (; i != a.end() && j != b.end(); ++i, ++j) if (!eq (*i, *j)) return false;
    return i == a.end() && j == b.end();
}
template <class T> static void check (const T& a, const T& b)
{
    ++g_evals;
    int c = cmp (a, b); bool e = eq (a, b);
    if (c) ++g_distinct;
    if ((a == b) != e) FAIL (string ("== gives ") + (e ? "false" : "true") + " for " + show (a) + " and " + show (b));
    if ((a != b) == e) FAIL (string ("!= wrong for ") + show (a) + " and " + show (b));
    if ((a < b) != (c < 0)) FAIL ("< wrong for " + show (a) + " and " + show (b));
    if ((a > b) != (c > 0)) FAIL ("> wrong for " + show (a) + " and " + show (b));
    if ((a <= b) != (c <= 0)) FAIL ("<= wrong for " + show (a) + " and " + show (b));
    if ((a >= b) != (c >= 0)) FAIL (">= wrong for " + show (a) + " and " + show (b));
}
static int Ops (int n, int seed)
{
    Rng r (seed);
    vector<Syl> base;
    vector<u16string> lits = { u"", u"a", u"b", u"ab", u"ก", u"\xff5e", u"." };
    // every single component varied around two base points
    for (int b = 0; b < 2; ++b) {
        for (auto& x : SOUNDS) base.push_back (Syl (x.first, SECS[b].first, VOWELS[b].first, ENDS[b].first, TONES[b].first, b));
        for (auto& x : SECS) base.push_back (Syl (SOUNDS[b].first, x.first, VOWELS[b].first, ENDS[b].first, TONES[b].first, b));
        for (auto& x : VOWELS) base.push_back (Syl (SOUNDS[b].first, SECS[b].first, x.first, ENDS[b].first, TONES[b].first, b));
        for (auto& x : ENDS) base.push_back (Syl (SOUNDS[b].first, SECS[b].first, VOWELS[b].first, x.first, TONES[b].first, b));
        for (auto& x : TONES) base.push_back (Syl (SOUNDS[b].first, SECS[b].first, VOWELS[b].first, ENDS[b].first, x.first, b));
    }
    for (int e : { -101, -1, 0, 1, 7 }) {
        base.push_back (Syl (SOUNDS[3].first, SECS[0].first, VOWELS[4].first, ENDS[2].first, TONES[1].first, e));
        for (auto& l : lits) base.push_back (Syl (e, l));
        base.push_back (Syl (e));
    }
    for (auto& a : base) for (auto& b : base) check (a, b);
    for (auto& a : base) {
        Syl b (a); Syl c = rnd_syl (r, 3); c = a;
        for (const Syl* x : { &b, &c })
            if (cmp (a, *x) || x->endPos() != a.endPos() || x->iCons1() != a.iCons1() || x->tone() != a.tone()
                || x->iCons2() != a.iCons2() || x->vowel() != a.vowel() || x->eCons() != a.eCons() || x->literal() != a.literal())
                FAIL ("copy differs: " + show (a) + " copied to " + show (*x));
        b.setEndPos (a.endPos() + 5);
        if (!eq (a, b) || b.endPos() != a.endPos() + 5) FAIL ("setEndPos disturbs " + show (a));
    }
    // sequences: small alphabets so that prefixes and ties are frequent
    vector<SylString> ss;
    vector<Syl> al = { base[0], base[1], Syl (2, u"a"), base[0], Syl (2, u"b") };
    al[3].setEndPos (9);
    ss.push_back (SylString());
    for (size_t k = 0, e = 0; k < 3; ++k) {
        size_t e2 = ss.size();
        for (; e < e2; ++e) for (auto& x : al) { SylString t (ss[e]); t += x; ss.push_back (t); }
    }
    for (auto& a : ss) for (auto& b : ss) check (a, b);
    for (int i = 0; i < n; ++i) {
        Syl x = rnd_syl (r, r.range (-3, 3)), y = rnd_syl (r, r.range (-3, 3));
        int m = r.below (64);
        y = Syl (m & 1 ? x.iCons1() : y.iCons1(), m & 2 ? x.iCons2() : y.iCons2(), m & 4 ? x.vowel() : y.vowel(),
                 m & 8 ? x.eCons() : y.eCons(), m & 16 ? x.tone() : y.tone(), m & 32 ? x.endPos() : y.endPos());
        check (x, y); check (y, x);
        SylString a, b;
        int p = r.below (6);
        for (int j = 0; j < p; ++j) { Syl z = rnd_syl (r, r.range (0, 2)); a += z; if (r.below (8) == 0) z.setEndPos (z.endPos() + 1); b += z; }
        if (r.below (3)) a += x;
        if (r.below (3)) b += y;
        check (a, b); check (b, a);
    }
    cout << "SAMPLE " << show (base[0]) << " vs " << show (base[5]) << endl;
    return DONE();
}

static bool same (const Syl& a, const Syl& b)
{
    return a.isLiteral() == b.isLiteral() && a.iCons1() == b.iCons1() && a.iCons2() == b.iCons2() && a.vowel() == b.vowel()
        && a.eCons() == b.eCons() && a.tone() == b.tone() && a.endPos() == b.endPos();
}
static int Raw (int n, int seed)
{
    Rng r (seed);
    RawSylOutput w;
    map<string, string> seen;
    auto one = [&] (const Syl& x) {
        ++g_evals;
        string c = w.output (x);
        if (c.find (',') != string::npos) FAIL ("raw code " + c + " of " + show (x) + " contains a comma");
        Syl y (c);
        if (!same (x, y)) FAIL ("raw code " + c + " of " + show (x) + " reads back as " + show (y));
        Syl z (c.substr (0, 5), x.endPos());
        if (!same (x, z)) FAIL ("bare raw code " + c.substr (0, 5) + " of " + show (x) + " reads back as " + show (z));
    };
    for (int e : { 7, -101 })
        for (auto& a : SOUNDS) for (auto& b : SECS) for (auto& v : VOWELS) for (auto& ec : ENDS) for (auto& t : TONES) {
            Syl x (a.first, b.first, v.first, ec.first, t.first, e);
            one (x);
            ++g_distinct;
            auto p = seen.insert ({ w.output (x), show (x) });
            if (!p.second) FAIL ("raw code " + p.first->first + " shared by " + p.first->second + " and " + show (x));
        }
    for (int e : { 0, 1, -1, 9, 10, 99, 100, -100, -10, 2147483647, -2147483647 - 1, 12345, -40506 }) one (rnd_syl (r, e));
    for (int i = 0; i < n; ++i) {
        int p = 1 + r.below (6);
        SylString s; string d; vector<Syl> v;
        for (int j = 0; j < p; ++j) {
            Syl x = rnd_syl (r, r.below (3) ? r.range (0, 40) : r.range (-20000, 2000));
            one (x); s += x; v.push_back (x);
            if (j) d += ",";
            d += w.output (x);
        }
        SylString t (d);
        size_t j = 0; bool ok = true;
        for (auto& x : t) { if (j >= v.size() || !same (x, v[j])) ok = false; ++j; }
        if (!ok || j != v.size()) FAIL ("codes " + d + " read back as " + show (t));
        ++g_evals;
    }
    cout << "SAMPLE " << w.output (rnd_syl (r, -305)) << endl;
    return DONE();
}

int main (int argc, char** argv)
{
    if (!strcmp (argv[1], "tables")) return Tables();
    if (!strcmp (argv[1], "ops")) return Ops (atoi (argv[2]), atoi (argv[3]));
    if (!strcmp (argv[1], "raw")) return Raw (atoi (argv[2]), atoi (argv[3]));
    return 2;
}
