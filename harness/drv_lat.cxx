// random acyclic pronunciation graphs: flat listing (C05), grouping (C06)
#include "common.h"
#include "lattice/pron-dag.h"
#include "output/output-delim.h"
#include "output/sylout-raw.h"
#include <map>
#include <set>
#include <cstring>
#include <memory>
#include <sstream>
using namespace std;
static string key (const Syl& s) { Syl t (s); t.setEndPos (0); return show (t); }
struct Edge { int f, t; Syl s; };
struct G { vector<Edge> e; string txt; int root = 0; };
static void paths (const G& g, int n, const string& pre, bool pos, multiset<string>& out)
{
    bool leaf = true;
    for (auto& e : g.e) if (e.f == n) { leaf = false; paths (g, e.t, pre + (pos ? show (e.s) : key (e.s)) + " ", pos, out); }
    if (leaf && n != g.root) out.insert (pre);
}
static void expand (const PronunChain& c, PronunChain::const_iterator i, const string& pre, set<string>& out)
{
    if (i == c.end()) { out.insert (pre); return; }
    auto j = i; ++j;
    for (auto& s : *i) { string p = pre; for (auto& x : s) p += key (x) + " "; expand (c, j, p, out); }
}
static bool flat, grp;
static void run (const G& g)
{
    PronunDAG d;
    for (auto& e : g.e) d.addEdge (e.f, e.t, e.s);
    cout << flush;
    ++g_evals;
    if (g.e.size() > 1) ++g_distinct;
    if (flat) {
        multiset<string> want, got;
        paths (g, 0, "", true, want);
        DelimOutput o (unique_ptr<ISylOutput> (new RawSylOutput), ',');
        istringstream is (o.output (d));
        string l;
        while (getline (is, l)) {
            SylString s (l); string p;
            for (auto& x : s) p += show (x) + " ";
            got.insert (p);
        }
        if (want != got) FAIL ("flat listing of " + g.txt + " has " + to_string (got.size()) + " readings, the graph has " + to_string (want.size()) + " complete paths (or they differ)");
    }
    if (grp) {
        multiset<string> w; paths (g, 0, "", false, w);
        set<string> want (w.begin(), w.end()), got;
        FracDAG f = d.fracDAG();
        PronunLatt l = f.lattice();
        for (auto& c : l) {
            for (auto& fr : c) {
                set<string> seen;
                if (fr.begin() == fr.end()) FAIL ("empty fraction in the grouping of " + g.txt);
                for (auto& s : fr) if (!seen.insert (show (s)).second) FAIL ("alternative " + show (s) + " repeated in a fraction of " + g.txt);
            }
            expand (c, c.begin(), "", got);
        }
        if (want != got) {
            string m;
            for (auto& x : want) if (!got.count (x)) m += " lost " + x;
            for (auto& x : got) if (!want.count (x)) m += " gained " + x;
            FAIL ("grouping of " + g.txt + ":" + m);
        }
    }
}
static vector<Syl> syls;
static bool loose;     // recorded positions all alike: parallel ways can spell literally the same
static void add (G& g, int f, int t, Syl s)
{
    s.setEndPos (loose ? 9 : t);
    for (auto& e : g.e) if (e.f == f && e.t == t && e.s == s) return;
    g.e.push_back ({ f, t, s });
    g.txt += "(" + to_string (f) + "->" + to_string (t) + " " + key (s) + ")";
}
int main (int argc, char** argv)
{
    flat = strchr (argv[1], 'f'); grp = strchr (argv[1], 'g');
    int n = atoi (argv[2]); Rng r (atoi (argv[3]));
    for (int i = 0; i < 4; ++i) syls.push_back (rnd_syl (r, 0));
    // all graphs on 4 nodes with at most two labels per pair
    for (int m = 0; m < 4096; ++m) {
        G g; int b = 0;
        for (int f = 0; f < 4; ++f) for (int t = f + 1; t < 4; ++t, b += 2) {
            if (m >> b & 1) add (g, f, t, syls[(f + t) % 2]);
            if (m >> (b + 1) & 1) add (g, f, t, syls[2]);
        }
        run (g);
        if (g_fails > 5) return DONE();
    }
    // alternatives added one by one, some again
    if (grp) for (int i = 0; i < n; ++i) {
        PronunFrac f; set<string> want, got, seen; string txt;
        auto bare = [] (const SylString& s) { string r; for (auto& x : s) r += key (x) + " "; return r; };
        for (int k = r.below (7); k >= 0; --k) {
            SylString s;
            for (int m = 1 + r.below (2); m; --m) { Syl x = syls[r.below (4)]; x.setEndPos (r.below (2)); s += x; }
            f += s; want.insert (bare (s)); txt += " " + show (s);
        }
        ++g_evals;
        for (auto& s : f) { got.insert (bare (s)); if (!seen.insert (show (s)).second) FAIL ("alternative " + show (s) + " repeated in a fraction given" + txt); }
        if (want != got) FAIL ("alternatives lost or gained by a fraction given" + txt);
        if (g_fails > 5) return DONE();
    }
    for (int i = 0; i < n; ++i) {
        G g;
        int nodes = 2 + r.below (8), edges = 1 + r.below (16), labels = 1 + r.below (4);
        // node numbers in a random order compatible with the edges
        vector<int> id (nodes);
        int kind = r.below (4), x = 0;
        loose = grp && !flat && r.below (4) == 0;
        for (int k = 0; k < nodes; ++k) {
            id[k] = x;
            x += 1 + r.below (3);
        }
        // intermediate points have negative numbers
        for (int k = 1; k + 1 < nodes; ++k) if (kind && r.below (3) == 0) id[k] = -(100 * k + id[k]);
        if (kind == 3) for (int k = 1; k < nodes; ++k) { int j = 1 + r.below (nodes - 1); swap (id[k], id[j]); }
        for (int k = 0; k < edges; ++k) {
            int a = r.below (nodes - 1), b = r.below (3) ? a + 1 : r.range (a + 1, nodes - 1);
            add (g, id[a], id[b], syls[r.below (labels)]);
        }
        if (r.below (3) == 0) for (int k = 0; k + 1 < nodes; ++k) add (g, id[k], id[k + 1], syls[r.below (labels)]);
        run (g);
        if (i == 0) cout << "SAMPLE " << g.txt << endl;
        if (g_fails > 5) break;
    }
    return DONE();
}
