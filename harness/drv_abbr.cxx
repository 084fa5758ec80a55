// Abbreviations, alone and before regular syllables: the text must have the names of the letters, and the syllables, as a reading, and no reading without the names
// drv_abbr SEED RANDOM
#include "ortho.h"
#include "parser/parser.h"
#include "output/ioutput.h"
#include "output/output-delim.h"
#include "output/sylout-raw.h"
#include <unordered_set>
using namespace std;
#include "spelling.h"
struct X : DelimOutput { X() : DelimOutput (unique_ptr<ISylOutput> (new RawSylOutput), ',') {} static list<SylString> get (const PronunDAG& d) { return DAGSylStrings (d, 0); } };
int main (int argc, char** argv)
{
    Rng rnd (atoi (argv[1])); long count = atol (argv[2]);
    unordered_set<u16string> seen;
    Parser p (false); RawSylOutput raw;
    vector<Init> inits = initials();
    u16string cons;
    for (char16_t c = 0xe01; c <= 0xe2e; ++c) if (ortho::cons (c)) cons += c;
    u16string w; vector<Syl> v; size_t names = 0;
    auto name = [&] (char16_t c) { v.push_back (Syl (ortho::sound (c), ESecInitCons::NONE, EVowel::AUU, NO, ortho::klass (c) == 1 ? ETone::CHATTAWA : ETone::SAMAN, 0)); names = v.size(); };
    auto regular = [&] (bool& openE, bool& openRo) {
        for (;;) {
            auto& i = inits[rnd.below (inits.size())];
            int n = rnd.below (sizeof OPEN / sizeof *OPEN + sizeof CLOSED / sizeof *CLOSED), m = sizeof OPEN / sizeof *OPEN;
            auto& f = n < m ? OPEN[n] : CLOSED[n - m];
            u16string s = f.s;
            int t = s.find (u'T') == u16string::npos ? 0 : rnd.below (i.k ? 3 : 5);
            char16_t c = 0; EEndConsClass e = f.e;
            if (n >= m) {
                c = cons[rnd.below (cons.size())]; e = NO;
                for (auto& g : ortho::FINAL) if (ortho::in (g.second, c)) e = g.first;
                if (e == NO || clash (i, s, t, c)) continue;
            }
            u16string x = fill (s, i.s, t, c);
            if ((openE && x[0] == u'ย') || (openRo && x[0] == u'ร')) continue;
            openE = s == u"เCT"; openRo = i.s.size() == 2 && s.back() == u'T' && x.back() == u'ร';
            w += x; v.push_back (Syl (i.a, i.b, f.v, e, ortho::tone (i.k, t, ortho::dead (f.v, e), ortho::isShort (f.v)), 0));
            return;
        }
    };
    auto show = [&] (const SylString& l) { string r; for (auto& x : l) r += (r.empty() ? "" : ",") + raw.output (x); return r; };
    auto test = [&] {
        string want;
        ++g_evals; g_distinct += seen.insert (w).second;
        try {
            auto d = p.parseWord (u8 (w));
            bool ok = false;
            for (auto& l : X::get (d)) {
                auto j = l.begin(); size_t k = 0;
                while (j != l.end() && k < v.size() && *j == v[k]) ++j, ++k;
                if (j == l.end() && k == v.size()) ok = true;
                if (k < names) { FAIL ("the text " + u8 (w) + " has the reading " + show (l) + ", which does not begin with the names of the letters of its abbreviations"); return; }
            }
            if (ok) return;
        } catch (exception& e) { FAIL ("analysing " + u8 (w) + " throws " + e.what()); return; }
        for (auto& x : v) want += (want.empty() ? "" : ",") + raw.output (x);
        FAIL ("the text " + u8 (w) + " is not read " + want + " (end positions apart), the names of the letters of its abbreviations and its regular syllables");
    };
    auto clear = [&] { w.clear(); v.clear(); names = 0; };
    for (auto c : cons) { clear(); w = c; name (c); test(); clear(); w = { c, u'.' }; name (c); test(); }
    for (long q = 0; q < count && g_fails <= 20; ++q) {
        clear();
        bool small = q < 500;     // these first: other readings multiply with the length
        for (int k = 1 + (small ? 0 : rnd.below (3)); k > 0; --k) {
            for (int n = 1 + rnd.below (small ? 2 : 4); n > 0; --n) { char16_t c = cons[rnd.below (cons.size())]; w += c; name (c); }
            w += u'.';
        }
        int k = rnd.below (5);
        if (k == 4) { char16_t c = cons[rnd.below (cons.size())]; w += c; name (c); }
        else { bool openE = false, openRo = false; while (k--) regular (openE, openRo); }
        test();
        if (q < 3) { string r; for (auto& x : v) r += (r.empty() ? "" : ",") + raw.output (x); cout << "SAMPLE " << u8 (w) << " read " << r << endl; }
    }
    return DONE();
}
