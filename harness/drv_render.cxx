// every valid syllable in the five notations, tab separated
#include "common.h"
#include "output/sylout-thai.h"
#include "output/sylout-roman.h"
#include "output/sylout-phonetic.h"
#include "output/sylout-raw.h"
#include "output/sylout-soundex.h"
#include <cstring>
using namespace std;
int main (int argc, char** argv)
{
    ThaiSylOutput t; RomanSylOutput r; PhoneticSylOutput p; RawSylOutput w; SoundexSylOutput s;
    const ISylOutput* o[] = { &t, &r, &p, &w, &s };
    if (!strcmp (argv[1], "all")) {
        for (auto& a : SOUNDS) for (auto& b : SECS) for (auto& v : VOWELS) for (auto& e : ENDS) for (auto& n : TONES) {
            Syl x (a.first, b.first, v.first, e.first, n.first, 7);
            printf ("%s\t%s\t%s\t%s\t%s", a.second, b.second, v.second, e.second, n.second);
            for (auto* q : o) {
                string z;
                try { z = q->output (x); } catch (const exception& ex) { z = "!exception"; }
                printf ("\t%s", z.c_str());
            }
            printf ("\t.\n");
        }
        return 0;
    }
    if (!strcmp (argv[1], "lit")) {
        // literals from argv
        for (int i = 2; i < argc; ++i) {
            Syl x (7, u16 (argv[i]));
            for (auto* q : o) printf ("%s\n", q->output (x).c_str());
        }
        return 0;
    }
    return 2;
}
