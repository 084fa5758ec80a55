// random syllable sequences through the list and JSON outputs; one record per line,
// judged by contracts/outoracle.py
#include "common.h"
#include "lattice/pron-dag.h"
#include "output/sylout-thai.h"
#include "output/sylout-roman.h"
#include "output/sylout-phonetic.h"
#include "output/sylout-raw.h"
#include "output/sylout-soundex.h"
#include "output/output-delim.h"
#include "output/output-roman.h"
#include "output/output-json.h"
#include "output/output-gjson.h"
#include <memory>
#include <cstring>
using namespace std;
static string hex (const string& s)
{
    static const char* d = "0123456789abcdef";
    string r;
    for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
    return r + ".";
}
static unique_ptr<ISylOutput> mk (int k)
{
    switch (k) {
    case 0: return unique_ptr<ISylOutput> (new ThaiSylOutput);
    case 1: return unique_ptr<ISylOutput> (new RomanSylOutput);
    case 2: return unique_ptr<ISylOutput> (new PhoneticSylOutput);
    case 3: return unique_ptr<ISylOutput> (new RawSylOutput);
    default: return unique_ptr<ISylOutput> (new SoundexSylOutput);
    }
}
static Syl any (Rng& r, bool nasty)
{
    int k = r.below (12);
    if (k == 0) return Syl (r.below (2) ? -1 : r.below (9));   // blank, at any position
    if (k == 1 || (nasty && k < 5)) {
        static const vector<u16string> L = { u"a", u"\"", u"\\", u"a\"b", u"\\\\", u"\\\"", u"\n", u"\t", u"\x1", u"\x1f", u"\x7f", u"\xe9", u"ก", u"\xd83d\xde00",
            u"/", u"ab cd", u"\"\"\"", u"x\\", u"\r\n", u"\xfffd", u"\x2028", u"]", u",", u"\b\f", u"-", u"123", u" " };
        return Syl (r.below (9), L[r.below (L.size())]);
    }
    Syl s = rnd_syl (r, r.below (9));
    // favour the cases the hyphen rule looks at
    int h = r.below (6);
    return Syl (h == 0 ? EInitConsSound::A : h == 1 ? EInitConsSound::NGA : s.iCons1(), s.iCons2(), s.vowel(),
                r.below (3) == 0 ? EEndConsClass::NONE : s.eCons(), s.tone(), s.endPos());
}
static string desc (const Syl& s, const ISylOutput& o)
{
    string k = s == Syl::Blank ? "B" : s.isLiteral() ? "L" : nameof (SOUNDS, s.iCons1()) + "/" + nameof (ENDS, s.eCons());
    return k + "=" + hex (o.output (s));
}
static string desc (const SylString& s, const ISylOutput& o)
{
    string r; bool f = true;
    for (auto& x : s) { if (!f) r += ' '; f = false; r += desc (x, o); }
    return r;
}
int main (int argc, char** argv)
{
    int n = atoi (argv[1]); Rng r (atoi (argv[2]));
    for (int i = 0; i < n; ++i) {
        int nt = r.below (5);
        unique_ptr<ISylOutput> o = mk (nt);
        bool nasty = r.below (2);
        list<SylString> l;
        int ns = r.below (10) == 0 ? 0 : r.below (4);
        for (int a = 0; a < ns; ++a) {
            SylString s;
            int m = r.below (6) + (r.below (6) ? 1 : 0);
            for (int b = 0; b < m; ++b) s += any (r, nasty);
            l.push_back (s);
        }
        string c;
        for (auto& s : l) c += desc (s, *o) + ";";
        char dl = "- ,|_"[r.below (5)];
        DelimOutput d (mk (nt), dl);
        printf ("delim\t%d\t%s\t%s\n", dl, c.c_str(), hex (d.output (l)).c_str());
        JsonOutput j (mk (nt));
        printf ("json\t0\t%s\t%s\n", c.c_str(), hex (j.output (l)).c_str());
        for (auto& s : l) {
            printf ("delim1\t%d\t%s\t%s\n", dl, desc (s, *o).c_str(), hex (d.output (s)).c_str());
            printf ("json1\t0\t%s\t%s\n", desc (s, *o).c_str(), hex (j.output (s)).c_str());
        }
        RomanSylOutput ro;
        string rc;
        for (auto& s : l) rc += desc (s, ro) + ";";
        for (int cap = 0; cap < 2; ++cap) {
            RomanOutput q (cap);
            printf ("roman\t%d\t%s\t%s\n", cap, rc.c_str(), hex (q.output (l)).c_str());
            for (auto& s : l) printf ("roman1\t%d\t%s\t%s\n", cap, desc (s, ro).c_str(), hex (q.output (s)).c_str());
        }
        // grouped
        GroupedJsonOutput g (mk (nt));
        PronunLatt lt; string lc;
        int nc = r.below (4);
        for (int a = 0; a < nc; ++a) {
            PronunChain ch;
            int nf = r.below (4);
            for (int b = 0; b < nf; ++b) {
                PronunFrac f;
                int na = 1 + r.below (3);
                for (int e = 0; e < na; ++e) {
                    SylString s; int m = 1 + r.below (3);
                    for (int q = 0; q < m; ++q) s += any (r, nasty);
                    f += s;
                }
                ch += f;
                for (auto& s : f) lc += desc (s, *o) + ";";
                lc += "|";
            }
            lc += "&";
            lt += ch;
        }
        printf ("gjson\t0\t%s\t%s\n", lc.c_str(), hex (g.output (lt)).c_str());
        // graph: flat and grouped through the public entry points
        PronunDAG dag;
        int nodes = 1 + r.below (5), ne = r.below (8);
        for (int e = 0; e < ne && nodes > 1; ++e) {
            int a = r.below (nodes - 1), b = r.below (3) ? a + 1 : r.range (a + 1, nodes - 1);
            Syl s = any (r, nasty);
            s.setEndPos (b);
            dag.addEdge (a, b, s);
        }
        string flat = j.output (dag), grouped = g.output (dag), lines = DelimOutput (mk (nt), dl).output (dag);
        PronunLatt dl2 = dag.fracDAG().lattice();
        printf ("dag\t%d\t%s\t%s\t%s\t%s\n", dl, hex (flat).c_str(), hex (grouped).c_str(), hex (lines).c_str(), hex (g.output (dl2)).c_str());
    }
    puts ("END");
    return 0;
}
