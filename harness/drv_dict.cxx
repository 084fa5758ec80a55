// dictionary lookup (C13): drv_dict N SEED SCRATCH      generated dictionaries (C14): drv_dict v LIST DIC
#include "ortho.h"
#include "dict/dict.h"
#include <datrie/trie.h>
#include <map>
#include <memory>
#include <set>
#include <fstream>
#include <cstring>
#include <unistd.h>
using namespace std;
static void u32be (FILE* f, unsigned v) { for (int k = 24; k >= 0; k -= 8) fputc ((v >> k) & 255, f); }
static string slurp (const string& p) { ifstream f (p, ios::binary); return string ((istreambuf_iterator<char> (f)), {}); }
static void spit (const string& p, const string& s) { ofstream f (p, ios::binary); f.write (s.data(), s.size()); }
typedef map<u16string, string> D;
static string showD (const D& d) { string s; for (auto& p : d) s += (s.empty() ? "" : " | ") + u8 (p.first) + " " + p.second; return s.substr (0, 600); }
static string key (const u16string& s) { return u8 (s); }
static void writeDict (const string& path, const D& d, Rng& r)
{
    AlphaMap* m = alpha_map_new(); alpha_map_add_range (m, 0x0e01, 0x0e5b);
    Trie* t = trie_new (m); alpha_map_free (m);
    string bank; int pad = r.below (3); while (pad--) bank += '\0';
    for (auto& e : d) {
        vector<AlphaChar> a; for (auto c : e.first) a.push_back (c); a.push_back (0);
        trie_store (t, a.data(), bank.size()); bank += e.second; bank += '\0';
    }
    FILE* f = fopen (path.c_str(), "wb"); trie_fwrite (t, f); u32be (f, bank.size()); fwrite (bank.data(), bank.size(), 1, f); fclose (f); trie_free (t);
}
static void matches (const Dict& dict, const D& d, const u16string& w, int p, const string& ctx)
{
    ++g_evals;
    vector<pair<int,string>> want, got;
    for (int e = p + 1; e <= (int) w.size(); ++e) { auto i = d.find (w.substr (p, e - p)); if (i != d.end()) want.push_back ({ e, i->second }); }
    if (!want.empty()) ++g_distinct;
    {
        unique_ptr<u16string> copy (new u16string (w));      // own heap block
        copy->shrink_to_fit();
        Match m (*copy, p, &dict);
        int n = 0;
        while (m.findNext()) { got.push_back ({ m.getCurPos(), m.getData() }); if (++n > (int) w.size() + 2) break; }
        if (m.findNext()) FAIL ("a finished match goes on at " + to_string (p) + " of \"" + u8 (w) + "\" " + ctx);
    }
    if (want != got) {
        string a, b; for (auto& x : want) a += " " + to_string (x.first) + ":" + x.second; for (auto& x : got) b += " " + to_string (x.first) + ":" + x.second;
        FAIL ("matching at " + to_string (p) + " of \"" + u8 (w) + "\": expected" + a + " got" + b + " " + ctx);
    }
}
int main (int argc, char** argv)
{
    if (argv[1][0] == 'v') {
        // LIST: word TAB data lines (last one for a word counts)
        D d; ifstream f (argv[2]); string l;
        while (getline (f, l)) { size_t t = l.find ('\t'); d[u16 (l.substr (0, t))] = l.substr (t + 1); }
        string file = slurp (argv[3]);
        FILE* fp = fopen (argv[3], "rb");
        Trie* t = fp ? trie_fread (fp) : nullptr;
        if (!t) { FAIL (string ("no dictionary written for ") + argv[2]); return DONE(); }
        long pos = ftell (fp); fclose (fp);
        if (pos + 4 > (long) file.size()) { FAIL ("no size field"); return DONE(); }
        unsigned sz = 0; for (int k = 0; k < 4; ++k) sz = sz << 8 | (unsigned char) file[pos + k];
        string bank = file.substr (pos + 4);
        if (sz != bank.size()) FAIL ("size field " + to_string (sz) + " but " + to_string (bank.size()) + " bytes of data follow (" + to_string (d.size()) + " words)");
        for (auto& e : d) {
            ++g_evals; ++g_distinct;
            vector<AlphaChar> a; for (auto c : e.first) a.push_back (c); a.push_back (0);
            TrieData x = -1;
            if (!trie_retrieve (t, a.data(), &x)) { FAIL ("word " + u8 (e.first) + " is not stored"); continue; }
            if (x < 0 || (size_t) x >= bank.size()) { FAIL ("word " + u8 (e.first) + " has the index " + to_string (x) + " outside the data"); continue; }
            size_t z = bank.find ('\0', x);
            if (z == string::npos) { FAIL ("data of " + u8 (e.first) + " is not terminated"); continue; }
            if (bank.substr (x, z - x) != e.second) FAIL ("data of " + u8 (e.first) + " is \"" + bank.substr (x, z - x) + "\" instead of \"" + e.second + "\"");
        }
        // no other word
        struct C { D* d; long n; } c = { &d, 0 };
        trie_enumerate (t, [] (const AlphaChar* k, TrieData, void* p) -> Bool {
            C* c = (C*) p; u16string w; while (*k) w += (char16_t) *k++; ++c->n;
            if (!c->d->count (w)) FAIL ("stored word " + u8 (w) + " is not in the list");
            return TRUE; }, &c);
        trie_free (t);
        return DONE();
    }
    int n = atoi (argv[1]); Rng r (atoi (argv[2])); string dir = argv[3], path = dir + "/t.dic";
    for (int k = 0; k < n; ++k) {
        D d; int m = r.range (1, 14);
        u16string base; int al = r.range (2, 6), off = r.below (60);
        for (int j = 0; j < al; ++j) base += 0xe01 + (off + j * 7) % 0x5b;
        auto word = [&] (int lo, int hi) { u16string w; int l = r.range (lo, hi); while (l--) w += base[r.below (base.size())]; return w; };
        while (m--) {
            string x; int l = r.below (6) ? r.below (12) : r.range (100, 400); while (l--) x += "abcXYZ;,@_0123"[r.below (14)];
            d[word (1, 6)] = x;
        }
        writeDict (path, d, r);
        string ctx = "in {" + showD (d) + "}";
        Dict dict;
        if (!dict.open (path.c_str())) { FAIL ("a good dictionary does not open " + ctx); continue; }
        Dict viaCtor (path.c_str());
        for (int j = 0; j < 25; ++j) {
            u16string w = word (0, 9); if (!r.below (4)) w.insert (w.begin() + r.below (w.size() + 1), r.below (2) ? u'a' : u'\0');
            matches (r.below (2) ? dict : viaCtor, d, w, r.below (w.size() + 1), ctx);
        }
        for (auto& e : d) { matches (dict, d, e.first, 0, ctx); matches (dict, d, e.first + e.first, e.first.size(), ctx); }
        string file = slurp (path);
        if (file.size() < 9000) {
            int step = r.below (4) ? (int) file.size() / 12 + 1 : 1;
            string tp = dir + "/cut.dic";
            for (size_t len = r.below (step); len < file.size(); len += (len + 40 > file.size() ? 1 : step)) {
                spit (tp, file.substr (0, len));
                ++g_evals; ++g_distinct;
                Dict& x = dict;
                bool viaNew = r.below (2);
                Dict fresh;
                Dict& y = viaNew ? fresh : x;
                if (y.open (tp.c_str())) FAIL ("a dictionary cut to " + to_string (len) + " of " + to_string (file.size()) + " bytes opens " + ctx);
                else if (y.trie()) FAIL ("a dictionary cut to " + to_string (len) + " of " + to_string (file.size()) + " bytes is left half loaded " + ctx);
                else matches (y, D(), d.begin()->first, 0, "after a failed opening");
            }
            unlink (tp.c_str());
            if (dict.open ((dir + "/missing.dic").c_str()) || dict.trie()) FAIL ("a missing dictionary opens");
            matches (dict, D(), d.begin()->first, 0, "after opening a missing file");
            if (!dict.open (path.c_str())) FAIL ("a dictionary does not open again " + ctx);
            matches (dict, d, d.rbegin()->first, 0, "opened again " + ctx);
            if (r.below (2)) {
                if (dict.open ((dir + "/missing.dic").c_str()) || dict.trie()) FAIL ("a missing dictionary opens over a loaded one");
                matches (dict, D(), d.begin()->first, 0, "after opening a missing file over a loaded one");
            }
            if (r.below (2)) { Dict again; again.open (path.c_str()); again.close(); if (again.trie()) FAIL ("a closed dictionary still has words"); }
            if (!dict.open (path.c_str())) FAIL ("a dictionary does not open again " + ctx);
            // impossible size
            FILE* fp = fopen (path.c_str(), "rb"); Trie* t = trie_fread (fp); long pos = ftell (fp); fclose (fp); if (t) trie_free (t);
            string bad = file; bad[pos] = (char) (0x80 | r.below (128));
            if (!r.below (3)) bad.replace (pos, 4, r.below (2) ? string ("\xff\xff\xff\xff") : string ("\x80\0\0\0", 4));
            else if (!r.below (2)) bad.replace (pos, 4, string ("\x7f\xff\xff\xff"));
            spit (tp, bad);
            if (dict.open (tp.c_str()) || dict.trie()) FAIL ("a dictionary with an impossible size opens");
            unlink (tp.c_str());
            // a large data bank, its length read from all four bytes
            if (k < 3) {
                string fill ((k == 2 ? 0x1234567 : k ? 0x28181 : 0xff7f) - (file.size() - pos - 4), 'x'), big = file + fill; size_t bs = big.size() - pos - 4;
                for (int j = 0; j < 4; ++j) big[pos + j] = (char) (bs >> (24 - 8 * j));
                spit (tp, big);
                Dict b;
                if (!b.open (tp.c_str())) FAIL ("a dictionary with " + to_string (bs) + " bytes of data does not open");
                else for (auto& e : d) matches (b, d, e.first, 0, "with a large data bank");
                truncate (tp.c_str(), big.size() - 1);
                if (b.open (tp.c_str())) FAIL ("a dictionary with " + to_string (bs) + " bytes of data opens when its last byte is missing");
                unlink (tp.c_str());
            }
            dict.close(); dict.close();
            if (dict.trie()) FAIL ("a closed dictionary still has words");
            matches (dict, D(), d.begin()->first, 0, "after closing");
        }
        if (k < 3) cout << "SAMPLE " << ctx << endl;
    }
    unlink (path.c_str());
    return DONE();
}
