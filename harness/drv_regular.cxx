// Regularly spelled syllables: the text of each must have the syllable among its readings
// drv_regular SEED PAIRS TRIPLES SPARSE   (one in SPARSE of the typical pairs)
#include "ortho.h"
#include "parser/parser.h"
#include "output/ioutput.h"
#include "output/output-delim.h"
#include "output/sylout-raw.h"
#include <unordered_set>
using namespace std;
#include "spelling.h"
struct X : DelimOutput { X() : DelimOutput (unique_ptr<ISylOutput> (new RawSylOutput), ',') {} static list<SylString> get (const PronunDAG& d) { return DAGSylStrings (d, 0); } };
struct Word { u16string w; Syl x; bool openE, openRo, typical; };
int main (int argc, char** argv)
{
    Rng rnd (atoi (argv[1])); long pairs = atol (argv[2]), triples = atol (argv[3]); int sparse = atoi (argv[4]);
    unordered_set<u16string> seen;
    Parser p (false); RawSylOutput raw;
    vector<Init> inits = initials();
    vector<Word> ws;
    auto add = [&] (const Init& i, const Form& f, EEndConsClass e, int t, char16_t fin) {
        u16string s = f.s, w = fill (s, i.s, t, fin);
        ws.push_back ({ w, Syl (i.a, i.b, f.v, e, ortho::tone (i.k, t, ortho::dead (f.v, e), ortho::isShort (f.v)), 0), s == u"เCT", i.s.size() == 2 && s.back() == u'T' && w.back() == u'ร',
            t < 2 && (!fin || ortho::in (u"กรตนยว", fin)) && (i.s == u"ก" || i.s == u"ย" || i.s == u"ร" || i.s == u"ว" || i.s == u"อ" || i.s == u"หร" || i.s == u"กร" || i.s == u"กว") });
    };
    for (auto& i : inits) for (int t = 0; t < 5; ++t) {
        if (t > 2 && i.k) continue;
        for (auto& f : OPEN) add (i, f, f.e, t, 0);
        for (auto& f : CLOSED) {
            u16string s = f.s;
            if (t && s.find (u'T') == u16string::npos) continue;
            for (auto& g : ortho::FINAL) if (g.first != NO) for (auto c : g.second) {
                if (clash (i, s, t, c)) continue;
                add (i, f, g.first, t, c);
            }
        }
    }
    auto joins = [&] (const Word& a, const Word& b) { return !(a.openE && b.w[0] == u'ย') && !(a.openRo && b.w[0] == u'ร'); };
    auto test = [&] (const vector<const Word*>& v) {
        u16string w; string want;
        for (auto x : v) w += x->w;
        ++g_evals; g_distinct += seen.insert (w).second;
        bool ok = false;
        try {
            auto d = p.parseWord (u8 (w));
            for (auto& l : X::get (d)) {
                auto j = l.begin(); size_t k = 0;
                while (j != l.end() && k < v.size() && *j == v[k]->x) ++j, ++k;
                if (j == l.end() && k == v.size()) { ok = true; break; }
            }
        } catch (exception& e) { FAIL ("analysing " + u8 (w) + " throws " + e.what()); return; }
        if (ok) return;
        for (auto x : v) want += (want.empty() ? "" : ",") + raw.output (x->x);
        FAIL ("the text " + u8 (w) + " is not read " + want + " (end positions apart), as its regularly spelled syllables are");
    };
    for (auto& w : ws) { test ({ &w }); if (g_fails > 20) return DONE(); }
    for (long q = 0; q < 3; ++q) { auto& w = ws[rnd.below (ws.size())]; cout << "SAMPLE " << u8 (w.w) << " read " << raw.output (w.x) << endl; }
    auto any = [&] () -> const Word& { return ws[rnd.below (ws.size())]; };
    // what comes next may change how a syllable is read: every beginning after every form
    vector<Word> next;
    for (auto& i : inits) if (i.s.size() == 1) for (auto& f : { OPEN[1], CLOSED[12], OPEN[9], OPEN[13], OPEN[25] }) {
        size_t n = ws.size();
        add (i, f, f.s == CLOSED[12].s ? EEndConsClass::KON : f.e, 0, u'น');
        next.push_back (ws[n]); ws.pop_back();
    }
    for (auto& a : ws) if (a.typical) for (auto& b : next) {
        if ((sparse < 2 || rnd.below (sparse) == 0) && joins (a, b)) test ({ &a, &b });
        if (g_fails > 20) return DONE();
    }
    for (long q = 0; q < pairs; ++q) {
        auto &a = any(), &b = any();
        if (joins (a, b)) test ({ &a, &b });
        if (g_fails > 20) return DONE();
    }
    for (long q = 0; q < triples; ++q) {
        auto &a = any(), &b = any(), &c = any();
        if (joins (a, b) && joins (b, c)) test ({ &a, &b, &c });
        if (g_fails > 20) return DONE();
    }
    return DONE();
}
