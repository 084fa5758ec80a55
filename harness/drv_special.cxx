// Silent letters, unwritten vowels, ro han, ru: the text of such units and regular syllables must have their reading among its readings
// drv_special SEED RANDOM
#include "ortho.h"
#include "parser/parser.h"
#include "output/ioutput.h"
#include "output/output-delim.h"
#include "output/sylout-raw.h"
#include <unordered_set>
#include <functional>
using namespace std;
#include "spelling.h"
struct X : DelimOutput { X() : DelimOutput (unique_ptr<ISylOutput> (new RawSylOutput), ',') {} static list<SylString> get (const PronunDAG& d) { return DAGSylStrings (d, 0); } };
typedef function<bool (const u16string&)> Next;     // what may follow
struct Unit { u16string w; vector<Syl> x; bool alone, first; Next next; };
static const u16string SIGNS = u"ิุ", CONS = [] { u16string r; for (char16_t c = 0xe01; c <= 0xe2e; ++c) if (ortho::cons (c)) r += c; return r; } ();
static EEndConsClass ending (char16_t c) { for (auto& g : ortho::FINAL) if (ortho::in (g.second, c)) return g.first; return NO; }
static Syl syl (EInitConsSound a, ESecInitCons b, int k, EVowel v, EEndConsClass e, int t) { return Syl (a, b, v, e, ortho::tone (k, t, ortho::dead (v, e), ortho::isShort (v)), 0); }
static Next any() { return [] (const u16string& n) { return ortho::sylstart (n[0]); }; }
int main (int argc, char** argv)
{
    Rng rnd (atoi (argv[1])); long count = atol (argv[2]);
    unordered_set<u16string> seen;
    Parser p (false); RawSylOutput raw;
    const vector<Init> inits = initials();
    auto pick = [&] (const u16string& s) { return s[rnd.below (s.size())]; };
    auto final_ = [&] (const u16string& no) { for (;;) { char16_t c = pick (CONS); if (ending (c) != NO && !ortho::in (no, c)) return c; } };
    auto silenced = [&] (char16_t how) {
        u16string r (1, pick (CONS));
        int n = how == u'L' ? rnd.below (3) : how == u'J';
        if (n == 1) r += pick (SIGNS); else if (n == 2) r += pick (CONS);
        return r + u'์';
    };
    // form with a given kind of beginning: 0 consonant, 1 leading ho hip or cluster, 2 unwritten a
    auto form = [&] (const Form& f, int kind, Unit& u) {
        Init i; u16string s = f.s, pre;
        u = { u"", {}, true, false, any() };
        char16_t tail = ortho::in (u"KLJ", s.back()) ? s.back() : 0;
        if (tail) s.pop_back();
        do { i = inits[rnd.below (inits.size())]; } while ((i.s.size() == 2) != (kind == 1));
        if (kind == 2) {
            if ((tail || ortho::in (u"QU", s.back())) && s.find (u'ร') == u16string::npos) return false;     // not part of the property
            char16_t a = pick (CONS), b = i.s[0];
            if (s.compare (0, 3, u"เCT") == 0 && (s.size() == 3 || ortho::in (u"ะFQU", s[3])) && b == u'อ') return false;
            u.x.push_back (syl (ortho::sound (a), ESecInitCons::NONE, ortho::klass (a), EVowel::A, NO, 0));
            if (ortho::in (ortho::LOWS, b)) i.k = ortho::klass (a);
            i.s = u16string (1, a) + b;
        }
        int t = s.find (u'T') == u16string::npos ? 0 : rnd.below (i.k ? 3 : 5);
        bool ro = i.s.back() == u'ร' && s[s.find (u'C') + 1] == u'T' && !t;
        if (s.find (u"ร") != u16string::npos && (kind || s.find (u"รร") == u16string::npos) && i.s.back() == u'ร') return false;
        char16_t c = 0; EEndConsClass e = f.e;
        u16string w;
        for (auto x : s) {
            if (x == u'F') c = final_ (u""), w += u'F';
            else if (x == u'Q') c = pick (u"กคชตท"), w += u"Fร";
            else if (x == u'U') c = pick (u"ฒตธร"), w += u'F', w += pick (SIGNS);
            else w += x;
        }
        if (c) e = ending (c);
        if (c && clash (i, s, t, c)) return false;
        u.w = fill (w, i.s, t, c);
        if (ro && kind && u.w.size() > u.w.rfind (i.s) + i.s.size() && u.w[u.w.rfind (i.s) + i.s.size()] == u'ร') return false;
        if (tail) {
            u16string k = silenced (tail);
            if (u.w.back() == u'ร' && k[0] == u'ร' && (kind || s == u"CTร")) return false;
            u.w += k;
        } else if (s == u"เCT") u.next = [ro, kind] (const u16string& n) { return ortho::sylstart (n[0]) && n[0] != u'ย' && !(ro && kind && n[0] == u'ร'); };
        else if (ro && kind && s.back() == u'T') u.next = [] (const u16string& n) { return ortho::sylstart (n[0]) && n[0] != u'ร'; };
        else if (s == u"CTร") u.next = [] (const u16string& n) { return ortho::sylstart (n[0]) && n[0] != u'ร'; };
        u.x.push_back (syl (i.a, i.b, i.k, f.v, e, t));
        return true;
    };
    vector<pair<u16string, Form>> forms; vector<u16string> store;
    store.reserve (500);
    auto put = [&] (const u16string& s, EVowel v, EEndConsClass e) { store.push_back (s); forms.push_back ({ store.back(), Form { store.back().c_str(), v, e } }); };
    for (auto& f : OPEN) {
        u16string s = f.s; put (s, f.v, f.e); put (s + u'K', f.v, f.e);
        if (s == u"CิT" || s == u"CีT" || s == u"CึT" || s == u"CุT" || s == u"CูT" || s == u"โCT" || s == u"โCTะ") put (s + u'J', f.v, f.e);
    }
    for (auto& f : CLOSED) { put (f.s, f.v, NO); put (u16string (f.s) + u'L', f.v, NO); }
    struct Q { const char16_t* s; EVowel v; };
    for (auto& q : { Q { u"Cั", EVowel::A }, Q { u"CTา", EVowel::AA }, Q { u"Cิ", EVowel::I }, Q { u"Cี", EVowel::II }, Q { u"Cุ", EVowel::U }, Q { u"Cู", EVowel::UU }, Q { u"เCT", EVowel::EE }, Q { u"โCT", EVowel::OO }, Q { u"เCีTย", EVowel::IAA } })
        { put (u16string (q.s) + u'Q', q.v, NO); put (u16string (q.s) + u'U', q.v, NO); }
    put (u"CTร", EVowel::AUU, EEndConsClass::KON); put (u"CTรK", EVowel::AUU, EEndConsClass::KON);
    put (u"CTรร", EVowel::A, EEndConsClass::KON); put (u"CTรรK", EVowel::A, EEndConsClass::KON);
    put (u"CTรรF", EVowel::A, NO); put (u"CTรรFL", EVowel::A, NO);
    const int SPECIAL = 21;
    auto one = [] (char16_t c, EVowel v) { return syl (ortho::sound (c), ESecInitCons::NONE, ortho::klass (c), v, NO, 0); };
    auto ra = [] (EVowel v, EEndConsClass e, int k) { return syl (EInitConsSound::RA, ESecInitCons::NONE, k, v, e, 0); };
    auto end_ = [&] (Unit& u, const u16string& no) { char16_t c = final_ (no); u.w += c; if (rnd.below (2)) u.w += silenced (u'L'); return ending (c); };
    auto special = [&] (int n) -> Unit {
        Unit u { u"", {}, false, false, any() };
        auto before = [] (const u16string& no) -> Next { return [no] (const u16string& n) { return ortho::cons (n[0]) && !ortho::in (no, n[0]); }; };
        char16_t c;
        switch (n) {
        case 0: u.w = c = pick (CONS); u.x = { one (c, EVowel::A) }; break;
        case 1: c = pick (u"กคจทธนบปภมวสหอ"); u.w = { c, u'ร' }; u.x = { one (c, EVowel::AUU), ra (EVowel::A, NO, 2) };
            u.next = [] (const u16string& n) { return ortho::sylstart (n[0]) && n[0] != u'ร'; }; break;
        case 2: u.w = u"บริ"; u.x = { one (u'บ', EVowel::AUU), ra (EVowel::I, NO, 2) }; break;
        case 3: u.w = u"จระ"; u.x = { one (u'จ', EVowel::AUU), ra (EVowel::A, NO, 2) }; break;
        case 4: u.w = u"บ"; u.x = { one (u'บ', EVowel::AUU) }; u.next = [] (const u16string& n) { return n.size() > 1 && n[0] == u'ด' && (n[1] == 0xe34 || n[1] == 0xe35); }; break;
        case 5: u.w = c = rnd.below (2) ? u'ฤ' : u'ฦ'; u.x = { one (c, EVowel::UE) }; u.alone = u.first = true;
            u.next = [] (const u16string& n) { return ortho::cons (n[0]) && (ending (n[0]) == NO || (n.size() > 1 && !ortho::sylstart (n[1]))); }; break;
        case 6: c = rnd.below (2) ? u'ฤ' : u'ฦ'; u.w = { c, rnd.below (2) ? u'ๅ' : u'า' }; u.x = { one (c, EVowel::UEE) }; u.alone = u.first = true; break;
        case 7: u.w = c = rnd.below (2) ? u'ฤ' : u'ฦ'; u.x = { syl (ortho::sound (c), ESecInitCons::NONE, 2, EVowel::UE, end_ (u, u"ณทษ"), 0) }; u.alone = u.first = true; break;
        case 8: c = pick (u"ณทษ"); u.w = { u'ฤ', c }; u.x = { ra (EVowel::I, ending (c), 2) }; if (rnd.below (2)) u.w += silenced (u'L'); u.alone = u.first = true; break;
        default: {
            bool fin = n & 1; n = (n - 9) / 2;     // 0 kri, 1 wrue, 2 si, 3 sa ri, 4 na rue, 5 khrue
            static const u16string ls[] = { u"กตทป", u"ว", u"ศส", u"ศส", u"น", u"คพ" };
            c = pick (ls[n]); u.w = { c, u'ฤ' };
            EVowel v = n == 0 || n == 2 || n == 3 ? EVowel::I : EVowel::UE;
            EEndConsClass e = NO;
            if (fin) { e = end_ (u, u"รว"); u.alone = true; } else u.next = before (u"รวอ");
            if (n == 3 || n == 4) u.x = { one (c, EVowel::A), ra (v, e, n == 3 ? ortho::klass (c) : 2) };
            else if (n == 5 && !fin) { u.x = { one (c, EVowel::A), ra (v, NO, 2) }; u.next = [] (const u16string& n) { return ortho::ldvowel (n[0]) || (ortho::cons (n[0]) && ending (n[0]) == NO); }; }
            else u.x = { syl (ortho::sound (c), n == 2 ? ESecInitCons::NONE : ESecInitCons::RA, ortho::klass (c), v, e, 0) };
        } }
        return u;
    };
    auto test = [&] (const vector<Unit>& us) {
        u16string w; string want; vector<Syl> v;
        for (auto& u : us) { w += u.w; v.insert (v.end(), u.x.begin(), u.x.end()); }
        ++g_evals; g_distinct += seen.insert (w).second;
        bool ok = false;
        try {
            auto d = p.parseWord (u8 (w));
            for (auto& l : X::get (d)) {
                auto j = l.begin(); size_t k = 0;
                while (j != l.end() && k < v.size() && *j == v[k]) ++j, ++k;
                if (j == l.end() && k == v.size()) { ok = true; break; }
            }
        } catch (exception& e) { FAIL ("analysing " + u8 (w) + " throws " + e.what()); return; }
        if (ok) return;
        for (auto& x : v) want += (want.empty() ? "" : ",") + raw.output (x);
        FAIL ("the text " + u8 (w) + " is not read " + want + " (end positions apart), as its spelling asks");
    };
    // a unit is followed by what may follow it
    auto draw = [&] (int q) { Unit u; if (q < SPECIAL) return special (q); q -= SPECIAL; for (int k = 0; !form (forms[q / 3].second, k < 50 ? q % 3 : 0, u); ++k); return u; };
    const int ALL = SPECIAL + 3 * forms.size();
    auto regular = [&] { Unit u; do ; while (!form (forms[rnd.below (forms.size())].second, 0, u)); return u; };
    auto follow = [&] (vector<Unit>& us, int q) {
        if (!us.back().alone || rnd.below (2)) for (int k = 0; k < 300; ++k) {
            Unit u = k < 4 ? draw (q) : regular();
            if (!u.first && us.back().next (u.w)) { us.push_back (u); break; }
            if (k > 100 && us.back().w == u"บ") { us.push_back ({ k % 2 ? u"ดี" : u"ดิน", { syl (EInitConsSound::DA, ESecInitCons::NONE, 0, k % 2 ? EVowel::II : EVowel::I, k % 2 ? NO : EEndConsClass::KON, 0) }, true, false, any() }); break; }
        }
    };
    long samples = 0;
    for (long n = 0; n < count; ++n) {
        int q = n % ALL;
        vector<Unit> us;
        if (rnd.below (4) == 0) { us.push_back (draw (SPECIAL + rnd.below (ALL - SPECIAL))); if (!us.back().alone) us.clear(); }
        Unit u = draw (q);
        if (!us.empty() && (u.first || !us.back().next (u.w))) us.clear();
        us.push_back (u);
        follow (us, rnd.below (ALL));
        if (rnd.below (4) == 0) follow (us, rnd.below (ALL));
        while (!us.empty() && !us.back().alone) { size_t k = us.size(); follow (us, SPECIAL + rnd.below (ALL - SPECIAL)); if (k == us.size()) { us.clear(); break; } }
        if (us.empty()) continue;
        test (us);
        if (samples < 3 && rnd.below (1000) == 0) { ++samples; string r; for (auto& u : us) for (auto& x : u.x) r += (r.empty() ? "" : ",") + raw.output (x); u16string w; for (auto& u : us) w += u.w; cout << "SAMPLE " << u8 (w) << " read " << r << endl; }
        if (g_fails > 20) return DONE();
    }
    return DONE();
}
