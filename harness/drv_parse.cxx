// bounded oracle for the text analysis (C07-C12 and the text half of C09)
// usage: drv_parse CHECKS MODE N SEED WORDS SCRATCH
//   CHECKS: subset of 7 8 9 0 1 2 (C07..C12)     MODE: x = exhaustive up to length N, r = N random texts, d = N random texts with random dictionaries
//   data: dictionary file of the form word<TAB>readings given as SCRATCH/*.tsv is not needed: dictionaries are made here
#include "ortho.h"
#include "parser/parser.h"
#include "output/sylout-thai.h"
#include "output/sylout-roman.h"
#include "output/sylout-phonetic.h"
#include "output/sylout-raw.h"
#include "output/sylout-soundex.h"
#include <datrie/trie.h>
#include <csignal>
#include <cstring>
#include <unistd.h>
#include <fstream>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
using namespace std;

// word breaks under the driver's control (the contract of libthai: ascending positions inside the text)
static vector<int> g_breaks; static bool g_asked;
extern "C" {
ThBrk* th_brk_new (const char*) { return (ThBrk*) malloc (1); }
void th_brk_delete (ThBrk* b) { free (b); }
static int give (int* pos, size_t n, size_t len)
{
    g_asked = true; size_t k = 0;
    for (int b : g_breaks) if (b > 0 && b < (int) len && k < n) pos[k++] = b;
    return (int) k;
}
int th_brk_wc_find_breaks (ThBrk*, const thwchar_t* s, int* pos, size_t n) { size_t l = 0; while (s[l]) ++l; return give (pos, n, l); }
}

static string g_cur; static char g_buf[8192];
static void onsig (int s)
{
    const char* w = s == SIGALRM ? "did not finish" : s == SIGABRT ? "aborted" : "crashed";
    int k = snprintf (g_buf, sizeof g_buf, "FAIL the analysis %s on %s\nSTAT evaluations=%ld distinct=%ld\n", w, g_cur.c_str(), g_evals, g_distinct);
    if (write (1, g_buf, k) < 0) {}
    _exit (1);
}
static string checks;
static bool want (char c) { return checks.find (c) != string::npos; }
struct E { int f, t; Syl s; };
struct Entry { u16string w; vector<vector<pair<string,int>>> r; string data; };
static string comps (const Syl& s) { Syl t (s); t.setEndPos (0); return show (t); }
static vector<unique_ptr<ISylOutput>> outs;
static const char* outn[] = { "Thai", "romanised", "phonetic", "raw", "soundex" };
static set<string> seen_syl;

// extent of an edge: intermediate points are -(101*start+length)
static bool mid (int n, int& c, int& e) { if (n >= 0) return false; int k = -n; c = k / 101; e = c + k % 101; return true; }
static int shifted (int e, int by) { return e >= 0 ? e + by : e - 101 * by; }
static string at (const u16string& w, const E& e) { return " (" + to_string (e.f) + "->" + to_string (e.t) + " " + show (e.s) + ") in " + g_cur; }

static void examine (const u16string& w, const PronunDAG& d, const vector<Entry>* dict, bool brk)
{
    int n = w.size();
    vector<E> es;
    for (auto i = d.outBegin(); i != d.outEnd(); ++i) es.push_back ({ i->first, i->second.target, i->second.edgeVal });
    map<int, vector<const E*>> out;
    for (auto& e : es) out[e.f].push_back (&e);
    // edges that a dictionary entry accounts for
    set<string> dictEdge, dictInner;
    auto ek = [] (int f, int t, const string& c) { return to_string (f) + ">" + to_string (t) + c; };
    auto dot = [&] (int e) { return e < n && w[e] == u'.' ? e + 1 : e; };
    if (dict) for (auto& en : *dict) for (size_t p = 0; p + en.w.size() <= w.size(); ++p) if (w.compare (p, en.w.size(), en.w) == 0)
        for (auto& r : en.r) {
            int f = p;
            for (size_t k = 0; k < r.size(); ++k) {
                int t = shifted (r[k].second, p);
                dictEdge.insert (ek (f, t, r[k].first));
                if (k > 0) dictInner.insert (ek (f, t, r[k].first));
                if (k + 1 == r.size()) {
                    dictEdge.insert (ek (f, dot (t), r[k].first));
                    if (k > 0) dictInner.insert (ek (f, dot (t), r[k].first));
                }
                f = t;
            }
        }
    if (want ('8')) {
        for (auto& e : es) {
            int c, x;
            if (e.s.endPos() != e.t) FAIL ("syllable records the end " + to_string (e.s.endPos()) + at (w, e));
            if (e.f >= 0 && e.t >= 0 && !(e.f < e.t && e.t <= n)) FAIL ("position does not advance" + at (w, e));
            if (e.f < 0 && e.t < 0) FAIL ("two intermediate points in a row" + at (w, e));
            if (e.t < 0 && mid (e.t, c, x) && !(c == e.f && x > c && x <= n)) FAIL ("intermediate point does not belong to its start" + at (w, e));
            if (e.f < 0 && mid (e.f, c, x)) {
                int y = x; while (y < e.t && y < n && w[y] == u'.') ++y;
                if (e.t != y || e.t <= c) FAIL ("an intermediate point is left towards another place" + at (w, e));
            }
        }
        // reachability
        set<int> from0; vector<int> st;
        if (!es.empty()) { st.push_back (0); from0.insert (0); }
        while (!st.empty()) { int x = st.back(); st.pop_back(); for (auto e : out[x]) if (from0.insert (e->t).second) st.push_back (e->t); }
        for (int x : from0) if (x != n && out[x].empty()) FAIL ("a reading stops at " + to_string (x) + " of " + to_string (n) + " in " + g_cur);
        for (auto& e : es) if (!from0.count (e.f)) FAIL ("unreachable syllable" + at (w, e));
    }
    for (auto& e : es) {
        bool fromDict = dict && dictEdge.count (ek (e.f, e.t, comps (e.s)));
        int c = e.f, x = e.t, t;
        if (e.f < 0) mid (e.f, c, t);
        if (e.t < 0) { int cc; mid (e.t, cc, x); }
        if (c < 0 || x > n || c >= x) continue;     // C08's business
        if (want ('1')) {
            if (e.s.isLiteral()) {
                u16string l = e.s.literal();
                if (w.compare (c, l.size(), l) != 0) FAIL ("literal is not the text it stands for" + at (w, e));
                else {
                    int le = c + l.size();
                    if (!(le == x || (le + 1 == x && w[le] == u'.'))) FAIL ("literal does not cover its stretch" + at (w, e));
                    if (l != u".") {
                        for (auto ch : l) if (ortho::token (ch)) { FAIL ("Thai text passed through as literal" + at (w, e)); break; }
                        if ((c > 0 && !ortho::token (w[c - 1])) || (le < n && !ortho::token (w[le]))) FAIL ("literal is not a whole run" + at (w, e));
                    }
                    string u = u8 (l);
                    for (int k = 0; k < 5; ++k) if (outs[k]->output (e.s) != "(" + u + ")" + (k == 3 ? "@" + to_string (e.s.endPos()) : "")) FAIL (string ("literal not verbatim in the ") + outn[k] + " notation" + at (w, e));
                }
            } else if (!fromDict) {
                for (int k = c; k < x; ++k) if (!ortho::token (w[k])) { FAIL ("text that is not Thai is swallowed by a syllable" + at (w, e)); break; }
            }
        }
        if (e.s.isLiteral() || fromDict) continue;
        if (want ('9')) {
            auto has = [] (auto& v, auto y) { for (auto& p : v) if (p.first == y) return true; return false; };
            if (!has (SOUNDS, e.s.iCons1()) || !has (SECS, e.s.iCons2()) || !has (VOWELS, e.s.vowel()) || !has (ENDS, e.s.eCons()) || !has (TONES, e.s.tone()))
                FAIL ("incomplete syllable" + at (w, e));
            else if (seen_syl.insert (comps (e.s)).second)
                for (int k = 0; k < 5; ++k) {
                    string o; bool thrown = false;
                    try { o = outs[k]->output (e.s); } catch (exception&) { thrown = true; }
                    if (thrown || o.empty()) FAIL (string ("the ") + outn[k] + " notation cannot render" + at (w, e));
                }
        }
        if (want ('0')) {
            auto letter = [&] (int k) { return k < x && (ortho::cons (w[k]) || w[k] == 0xe24 || w[k] == 0xe26); };
            int marks = 0, mark = 0; bool snd = false, fin = e.s.eCons() == EEndConsClass::NONE; set<int> ks;
            int i1 = c; if (i1 < x && ortho::ldvowel (w[i1])) ++i1;      // first consonant
            for (int k = c; k < x; ++k) if (ortho::tonemark (w[k])) { ++marks; mark = w[k] - 0xe47; }
            // the initial is the first consonant or the one it leads
            for (int i = i1; i < i1 + 2; ++i) {
                if (!letter (i)) break;
                if (ortho::sound (w[i]) != e.s.iCons1()) continue;
                snd = true;
                ks.insert (ortho::klass (w[i]));
                if (i > i1 && (ortho::in (ortho::LOWS, w[i]) || w[i] == 0xe24 || w[i] == 0xe26)) ks.insert (ortho::klass (w[i1]));
                for (int k = i + 1; k <= x && k < n; ++k) if (ortho::finals (w[k], e.s.eCons())) fin = true;
            }
            if (ortho::ldvowel (w[c]) && ortho::finals (w[c], e.s.eCons())) fin = true;
            bool sec = e.s.iCons2() == ESecInitCons::NONE;
            if (!sec && letter (i1 + 1)) {
                auto z = ortho::sound (w[i1 + 1]);
                sec = ortho::sound (w[i1]) == e.s.iCons1() && ((z == EInitConsSound::RA && e.s.iCons2() == ESecInitCons::RA)
                   || (z == EInitConsSound::LA && e.s.iCons2() == ESecInitCons::LA) || (z == EInitConsSound::WA && e.s.iCons2() == ESecInitCons::WA));
            }
            if (!snd) FAIL ("initial sound not written in the stretch" + at (w, e));
            if (!sec) FAIL ("cluster not written in the stretch" + at (w, e));
            if (!fin) FAIL ("final class not written in or after the stretch" + at (w, e));
            if (marks > 1) FAIL ("more than one tone mark in the stretch" + at (w, e));
            bool ok = !snd;
            int m = e.t < 0 ? 0 : mark;
            for (int k : ks) if (ortho::tone (k, m, ortho::dead (e.s.vowel(), e.s.eCons()), ortho::isShort (e.s.vowel())) == e.s.tone()) ok = true;
            if (!ok) FAIL ("tone does not follow from the letters written" + at (w, e));
        }
    }
    if (want ('1')) {
        for (int a = 0; a < n; ) {
            if (ortho::token (w[a])) { ++a; continue; }
            int b = a; while (b < n && !ortho::token (w[b])) ++b;
            for (auto& e : es) {
                int c = e.f, x = e.t, t; if (e.f < 0) mid (e.f, c, t); if (e.t < 0) { int cc; mid (e.t, cc, x); }
                if (c < b && x > a && !(c == a && (x == b || (x == b + 1 && w[b] == u'.')) && e.s.isLiteral() && e.s.literal() == w.substr (a, b - a)))
                    FAIL ("run of other characters not carried through" + at (w, e));
            }
            a = b;
        }
    }
    if (want ('2') && dict) {
        set<int> todo, sure;
        int b = 0; while (b < n && !ortho::token (w[b])) ++b;
        todo.insert (b);
        while (!todo.empty()) {
            int p = *todo.begin(); todo.erase (p);
            if (!sure.insert (p).second || p >= n || (p > 0 && !out.count (p)) ) continue;
            if (!ortho::token (w[p])) { int q = p; while (q < n && !ortho::token (w[q])) ++q; todo.insert (q); continue; }
            int stop = n; if (brk) for (int k : g_breaks) if (k > p) { stop = min (n, k); break; }
            int q = p; while (q < stop && ortho::token (w[q])) ++q;
            stop = q;
            bool any = false;
            set<string> first;
            for (auto& en : *dict) {
                int e = p + en.w.size();
                if (e > stop || w.compare (p, en.w.size(), en.w) != 0 || (e < stop && !ortho::sylstart (w[e]))) continue;
                any = true;
                int e2 = e; bool dotted = e < n && w[e] == u'.';
                if (dotted) e2 = e + 1;
                todo.insert (e2);
                bool cont = e2 == n;     // the rest of the text was analysed from there
                for (auto x : out[e2]) if (!dictInner.count (ek (x->f, x->t, comps (x->s)))) cont = true;
                for (auto& r : en.r) {
                    int f = p;
                    for (size_t k = 0; k < r.size(); ++k) {
                        int t = shifted (r[k].second, p), tt = (k + 1 == r.size()) ? e2 : t;
                        if (k == 0) { first.insert (ek (f, tt, r[k].first)); }
                        if (cont) {
                            bool have = false;
                            for (auto x : out[f]) if (x->t == tt && comps (x->s) == r[k].first) have = true;
                            if (!have) FAIL ("dictionary word " + u8 (en.w) + " at " + to_string (p) + ": syllable " + to_string (k + 1) + " of a listed reading is missing in " + g_cur);
                        }
                        f = t;
                    }
                }
            }
            if (!any && (p == 0 || w[p - 1] == u' ' || w[p - 1] == u'.')) {
                // an abbreviation is read as a whole: its inner points are not points of the analysis
                int q = p; while (q < stop && ortho::cons (w[q])) ++q;
                if (q < stop && w[q] == u'.') { todo.insert (q + 1); continue; }
            }
            for (auto e : out[p]) {
                string k = ek (e->f, e->t, comps (e->s));
                if (any) { if (!first.count (k) && !dictInner.count (k)) FAIL ("a dictionary word applies at " + to_string (p) + " but the rules contribute" + at (w, *e)); continue; }
                if (dictInner.count (k)) continue;
                int c, x = e->t;
                if (x < 0) { mid (x, c, x); for (auto y : out[e->t]) todo.insert (y->t); continue; }
                todo.insert (x);
            }
        }
    }
}

static unique_ptr<Parser> g_plain, g_brk;
static void one (const u16string& w, Parser* p, const vector<Entry>* dict, const string& dictTxt, bool brk)
{
    string u;
    try { u = u8 (w); } catch (exception&) { return; }
    g_cur = "\"" + u + "\"";
    if (brk) { g_cur += " breaks"; for (int b : g_breaks) g_cur += " " + to_string (b); }
    if (dict) g_cur += " dictionary {" + dictTxt + "}";
    ++g_evals; g_asked = false;
    alarm (30);
    try {
        PronunDAG d = p->parseWord (u);
        if (d.outBegin() != d.outEnd()) ++g_distinct;
        alarm (0);
        if (brk && !g_asked && !dict) {}
        examine (w, d, dict, brk && g_asked);
    } catch (exception& ex) { FAIL (string ("the analysis failed (") + ex.what() + ") on " + g_cur); }
    alarm (0);
}
static void breaks (Rng& r, int n) { g_breaks.clear(); int k = r.below (4); set<int> s; while (k-- && n > 1) s.insert (r.range (1, n - 1)); g_breaks.assign (s.begin(), s.end()); }

static void u32be (FILE* f, int v) { for (int k = 24; k >= 0; k -= 8) fputc ((v >> k) & 255, f); }
static bool writeDict (const string& path, const vector<Entry>& d)
{
    AlphaMap* m = alpha_map_new(); alpha_map_add_range (m, 0x0e01, 0x0e5b);
    Trie* t = trie_new (m); alpha_map_free (m);
    string bank;
    for (auto& e : d) {
        vector<AlphaChar> a; for (auto c : e.w) a.push_back (c); a.push_back (0);
        trie_store (t, a.data(), bank.size()); bank += e.data; bank += '\0';
    }
    FILE* f = fopen (path.c_str(), "wb"); if (!f) return false;
    trie_fwrite (t, f); u32be (f, bank.size()); fwrite (bank.data(), bank.size(), 1, f); fclose (f); trie_free (t);
    return true;
}
static const string IC = "kcgjJydtTnbpPfmrlwsh?", SC = "_rlw", VC = "aAiIvVuUeExXyYzZqQoOcCWw";
static void reading (Entry& e, const SylString& s)
{
    vector<pair<string,int>> r; for (auto& x : s) r.push_back ({ comps (x), x.endPos() });
    e.r.push_back (r);
}

int main (int argc, char** argv)
{
    checks = argv[1]; char mode = argv[2][0]; int n = atoi (argv[3]); Rng r (atoi (argv[4]));
    vector<u16string> words; { ifstream f (argv[5]); string l; while (getline (f, l)) if (!l.empty()) words.push_back (u16 (l)); }
    for (int s : { SIGABRT, SIGSEGV, SIGALRM, SIGFPE, SIGBUS }) signal (s, onsig);
    outs.emplace_back (new ThaiSylOutput); outs.emplace_back (new RomanSylOutput); outs.emplace_back (new PhoneticSylOutput);
    outs.emplace_back (new RawSylOutput); outs.emplace_back (new SoundexSylOutput);
    const u16string A = u16 ("กขคงจดตทนบปพมยรลวศษสหอณธญฤฦะัาำิีุูเแโใไๅ็่้์. aๆ");
    Parser plain (false), brk (true);
    auto weighted = [&] () -> char16_t {
        int k = r.below (100);
        if (k < 45) return 0xe01 + r.below (46);
        if (k < 80) { static const u16string V = u16 ("ะัาำิีึืุูเแโใไ็่้์าัเิ"); return V[r.below (V.size())]; }
        if (k < 84) return 0xe48 + r.below (4);
        if (k < 88) { static const u16string V = u16 ("ฤฤๅฦ์์็"); return V[r.below (V.size())]; }
        if (k < 92) return u'.';
        if (k < 94) return u' ';
        if (k < 96) return 0xe01 + r.below (0x5b);
        if (k < 98) return 'a' + r.below (26);
        return 0x20 + r.below (0x500);
    };
    auto text = [&] () {
        u16string w;
        int k = r.below (10);
        if (k < 3) { int l = r.range (0, 9); while (l--) w += weighted(); }
        else if (k < 8) {
            int l = r.range (1, 3);
            while (l--) w += words[r.below (words.size())];
            int m = r.below (4);
            while (m--) {
                int p = r.below (w.size() + 1);
                switch (r.below (4)) {
                case 0: w.insert (w.begin() + p, weighted()); break;
                case 1: if (p < (int) w.size()) w.erase (w.begin() + p); break;
                case 2: if (p < (int) w.size()) w[p] = weighted(); break;
                case 3: if (p + 1 < (int) w.size()) swap (w[p], w[p + 1]); break;
                }
            }
        } else {
            // syllable shapes
            int l = r.range (1, 5);
            static const vector<u16string> lead = { u"", u"", u"", u"เ", u"แ", u"โ", u"ใ", u"ไ" };
            static const u16string V = u16 ("ะาิีึืุูัำ็ๅ");
            while (l--) {
                w += lead[r.below (lead.size())];
                int c = r.range (1, 2); while (c--) w += 0xe01 + r.below (46);
                if (r.below (3)) w += V[r.below (V.size())];
                if (!r.below (3)) w += 0xe48 + r.below (4);
                if (!r.below (6)) w += V[r.below (V.size())];
                c = r.below (3); while (c--) w += 0xe01 + r.below (46);
                if (!r.below (8)) w += 0xe4c;
            }
        }
        return w;
    };
    if (mode == 'x') {
        for (auto& w : words) { g_breaks.clear(); one (w, &plain, nullptr, "", false); }
        g_breaks.clear();
        vector<int> ix;
        for (int len = 0; len <= n; ++len) {
            ix.assign (len, 0);
            while (true) {
                u16string w; for (int i : ix) w += A[i];
                one (w, &plain, nullptr, "", false);
                int p = len - 1; while (p >= 0 && ++ix[p] == (int) A.size()) ix[p--] = 0;
                if (p < 0) break;
            }
        }
    } else if (mode == 'r') {
        for (int k = 0; k < n; ++k) {
            u16string w = text();
            bool b = r.below (2);
            breaks (r, w.size());
            one (w, b ? &brk : &plain, nullptr, "", b);
            if (k < 3) cout << "SAMPLE " << g_cur << endl;
        }
    } else {
        string path = string (argv[6]) + "/d.dic";
        int per = 40;
        for (int k = 0; k < n; k += per) {
            vector<Entry> d; string txt;
            int m = r.range (1, 12); set<u16string> used;
            while (m--) {
                Entry e; 
                u16string src = words[r.below (words.size())];
                int a = r.below (3) ? 0 : r.below (src.size()), l = r.range (1, src.size() - a);
                e.w = src.substr (a, r.below (2) ? src.size() - a : l);
                bool ok = true; for (auto c : e.w) if (c < 0xe01 || c > 0xe5b) ok = false;
                if (!ok || !used.insert (e.w).second) continue;
                int L = e.w.size(), nr = r.range (1, 3);
                while (nr--) {
                    SylString s; int f = 0;
                    while (f < L) {
                        int t = r.below (2) ? L : r.range (f + 1, L);
                        if (!r.below (4)) {
                            int md = -(101 * f + (t - f));
                            if (md == 0) md = -(t);
                            s += rnd_syl (r, md); s += rnd_syl (r, t);
                        } else s += rnd_syl (r, t);
                        f = t;
                    }
                    RawSylOutput raw; string o; for (auto& x : s) o += (o.empty() ? "" : ",") + raw.output (x);
                    e.data += (e.data.empty() ? "" : ";") + o;
                    reading (e, s);
                }
                d.push_back (e);
                txt += (txt.empty() ? "" : " | ") + u8 (e.w) + " " + e.data;
            }
            if (d.empty() || !writeDict (path, d)) continue;
            Parser p (path.c_str(), false), pb (path.c_str(), true);
            for (int j = 0; j < per; ++j) {
                u16string w;
                if (r.below (3)) { int l = r.range (1, 3); while (l--) { w += r.below (3) ? d[r.below (d.size())].w : words[r.below (words.size())]; if (!r.below (5)) w += weighted(); } }
                else w = text();
                bool b = !r.below (3); breaks (r, w.size());
                one (w, b ? &pb : &p, &d, txt, b);
                if (k == 0 && j < 3) cout << "SAMPLE " << g_cur << endl;
            }
        }
        remove (path.c_str());
    }
    return DONE();
}
