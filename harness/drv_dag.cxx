// random histories on the graph template against a set oracle (C04)
#include "common.h"
#include "lattice/pron-dag.h"
#include <map>
#include <set>
#include <sstream>
#include <algorithm>
using namespace std;

static string key (const Syl& s) { Syl t (s); t.setEndPos (0); return show (t); }
static string full (const Syl& s) { return show (s); }
static string key (const PronunFrac& f) { string r; for (auto& s : f) { r += "|"; for (auto& x : s) r += key (x) + " "; } return r; }
static string full (const PronunFrac& f) { string r; for (auto& s : f) { r += "|"; for (auto& x : s) r += full (x) + " "; } return r + "@" + to_string (f.endPos()); }

static vector<Syl> g_syls;
static void mk (Rng& r, Syl& out) { out = g_syls[r.below (g_syls.size())]; out.setEndPos (r.below (3)); }
static void mk (Rng& r, PronunFrac& out)
{
    PronunFrac f;
    int n = r.below (3);
    for (int i = 0; i < n; ++i) {
        SylString s;
        int m = 1 + r.below (2);
        for (int j = 0; j < m; ++j) s += g_syls[r.below (g_syls.size())];
        f += s;
    }
    f.setEndPos (r.below (3));
    out = f;
}

template <class V> struct Model {
    // (from, to, class of label) -> label as stored
    map<tuple<int, int, string>, string> e;
    bool has (int f, int t, const V& v) const { return e.count (make_tuple (f, t, key (v))); }
};

template <class V> string dump (const Model<V>& m)
{
    string r;
    for (auto& p : m.e) r += "(" + to_string (get<0> (p.first)) + "->" + to_string (get<1> (p.first)) + " " + p.second + ")";
    return r;
}
template <class V> bool agree (const DAG<V>& d, const Model<V>& m, string& why)
{
    typedef multiset<tuple<int, int, string, string>> Set;
    Set want, fwd, bwd;
    map<int, int> od, id;
    for (auto& p : m.e) {
        want.insert (make_tuple (get<0> (p.first), get<1> (p.first), get<2> (p.first), p.second));
        ++od[get<0> (p.first)]; ++id[get<1> (p.first)];
    }
    for (auto i = d.outBegin(); i != d.outEnd(); ++i) fwd.insert (make_tuple (i->first, i->second.target, key (i->second.edgeVal), full (i->second.edgeVal)));
    for (auto i = d.inBegin(); i != d.inEnd(); ++i) bwd.insert (make_tuple (i->second.target, i->first, key (i->second.edgeVal), full (i->second.edgeVal)));
    if (fwd != want) { why = "walking forward does not show the expected edges"; return false; }
    if (bwd != want) { why = "walking backward does not show the expected edges"; return false; }
    for (int n = -2; n <= 5; ++n) {
        if (d.outDegree (n) != od[n]) { why = "outDegree of " + to_string (n); return false; }
        if (d.inDegree (n) != id[n]) { why = "inDegree of " + to_string (n); return false; }
        int c = 0;
        auto o = d.outEdges (n);
        for (auto i = o.first; i != o.second; ++i, ++c)
            if (i->first != n || !m.e.count (make_tuple (n, i->second.target, key (i->second.edgeVal)))) { why = "outEdges of " + to_string (n); return false; }
        if (c != od[n]) { why = "number of outEdges of " + to_string (n); return false; }
        auto q = d.inEdges (n); c = 0;
        for (auto i = q.first; i != q.second; ++i, ++c)
            if (i->first != n || !m.e.count (make_tuple (i->second.target, n, key (i->second.edgeVal)))) { why = "inEdges of " + to_string (n); return false; }
        if (c != id[n]) { why = "number of inEdges of " + to_string (n); return false; }
    }
    return true;
}

template <class V> void histories (int n, Rng& r, const char* what)
{
    for (int h = 0; h < n; ++h) {
        DAG<V> d, d2; Model<V> m, m2;
        string log; string why;
        int nn = 2 + r.below (4), lo = -r.below (2);
        int steps = 3 + r.below (25);
        for (int s = 0; s < steps; ++s) {
            int f = r.range (lo, nn), t = r.range (lo, nn);
            V v; mk (r, v);
            int op = r.below (20);
            ++g_evals;
            if (op < 9) {
                log += " add " + to_string (f) + "->" + to_string (t) + " " + full (v) + ";";
                bool w = !m.has (f, t, v), g = d.addEdge (f, t, v);
                if (w) { m.e[make_tuple (f, t, key (v))] = full (v); ++g_distinct; }
                if (w != g) { FAIL (string (what) + ": addEdge reported " + to_string (g) + " after" + log); break; }
            } else if (op < 13) {
                if (r.below (3) && !m.e.empty()) {   // an existing edge
                    auto it = d.outBegin(); int k = r.below (m.e.size()); while (k--) ++it;
                    f = it->first; t = it->second.target; v = it->second.edgeVal;
                }
                log += " remove " + to_string (f) + "->" + to_string (t) + " " + full (v) + ";";
                bool w = m.has (f, t, v), g = d.removeEdge (f, t, v);
                m.e.erase (make_tuple (f, t, key (v)));
                if (w != g) { FAIL (string (what) + ": removeEdge reported " + to_string (g) + " after" + log); break; }
            } else if (op < 15) {
                log += " removeDirect " + to_string (f) + "->" + to_string (t) + ";";
                bool w = false;
                for (auto i = m.e.begin(); i != m.e.end(); )
                    if (get<0> (i->first) == f && get<1> (i->first) == t) { i = m.e.erase (i); w = true; } else ++i;
                bool g = d.removeDirectEdges (f, t);
                if (w != g) { FAIL (string (what) + ": removeDirectEdges reported " + to_string (g) + " after" + log); break; }
            } else if (op < 17) {
                log += " [2] add " + to_string (f) + "->" + to_string (t) + " " + full (v) + ";";
                if (!m2.has (f, t, v)) m2.e[make_tuple (f, t, key (v))] = full (v);
                d2.addEdge (f, t, v);
            } else if (op < 18) {
                log += " unite with [2];";
                d.unionDAG (d2);
                for (auto& p : m2.e) m.e.insert (p);
            } else if (op < 19) {
                log += " copy;";
                DAG<V> c (d); d2 = c; m2 = m;
            } else {
                log += " query;";
                if (d.isEdgeExist (f, t, v) != m.has (f, t, v)) { FAIL (string (what) + ": isEdgeExist " + to_string (f) + "->" + to_string (t) + " " + full (v) + " wrong after" + log); break; }
            }
            if (!agree (d, m, why)) { FAIL (string (what) + ": " + why + " after" + log + " expected " + dump (m)); break; }
            if (!agree (d2, m2, why)) { FAIL (string (what) + ": [2] " + why + " after" + log); break; }
        }
        if (h == 0) cout << "SAMPLE " << what << ":" << log.substr (0, 300) << endl;
        if (g_fails > 5) return;
    }
}
// self-operations and growing graphs
template <class V> void special (Rng& r, const char* what)
{
    DAG<V> d; Model<V> m; string why;
    for (int i = 0; i < 300; ++i) {
        V v; mk (r, v);
        int f = r.range (-2, 5), t = r.range (-2, 5);
        if (!m.has (f, t, v)) m.e[make_tuple (f, t, key (v))] = full (v);
        d.addEdge (f, t, v);
    }
    d.unionDAG (d);
    ++g_evals;
    if (!agree (d, m, why)) FAIL (string (what) + ": uniting a graph with itself: " + why);
    DAG<V> e (d), g (move (e));
    if (!agree (g, m, why)) FAIL (string (what) + ": moved copy: " + why);
    while (!m.e.empty()) {
        auto it = d.outBegin();
        int k = r.below (m.e.size()); while (k--) ++it;
        int f = it->first, t = it->second.target; V v = it->second.edgeVal;
        m.e.erase (make_tuple (f, t, key (v)));
        ++g_evals;
        if (!d.removeEdge (f, t, v) || !agree (d, m, why)) { FAIL (string (what) + ": removing " + to_string (f) + "->" + to_string (t) + " " + full (v) + ": " + why); return; }
    }
}

int main (int argc, char** argv)
{
    int n = atoi (argv[1]); Rng r (atoi (argv[2]));
    for (int i = 0; i < 3; ++i) g_syls.push_back (rnd_syl (r, 0));
    g_syls.push_back (Syl (0, u"x"));
    // labels differing in one component only
    Syl a = g_syls[0];
    g_syls.push_back (Syl (a.iCons1(), a.iCons2(), a.vowel(), a.eCons(), a.tone() == ETone::EK ? ETone::THO : ETone::EK, 0));
    histories<Syl> (n, r, "syllable graph");
    histories<PronunFrac> (n, r, "fraction graph");
    special<Syl> (r, "syllable graph");
    special<PronunFrac> (r, "fraction graph");
    return DONE();
}
