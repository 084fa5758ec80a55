// expected blocks for the command line check (C19): argv[1] = dictionary ("" for none); stdin: records "<b|n><j|g|l><notation>\t<word>\n"
// answers each record with "<bytes>\n<block>"
#include "common.h"
#include "parser/parser.h"
#include "output/sylout-thai.h"
#include "output/sylout-roman.h"
#include "output/sylout-phonetic.h"
#include "output/sylout-raw.h"
#include "output/sylout-soundex.h"
#include "output/output-delim.h"
#include "output/output-roman.h"
#include "output/output-json.h"
#include "output/output-gjson.h"
#include <memory>
using namespace std;
static unique_ptr<ISylOutput> syl (char n)
{
    switch (n) {
    case 't': return unique_ptr<ISylOutput> (new ThaiSylOutput);
    case 'r': return unique_ptr<ISylOutput> (new RomanSylOutput);
    case 'p': return unique_ptr<ISylOutput> (new PhoneticSylOutput);
    case 'w': return unique_ptr<ISylOutput> (new RawSylOutput);
    default: return unique_ptr<ISylOutput> (new SoundexSylOutput);
    }
}
int main (int, char** argv)
{
    Parser b (true), n (false);
    if (argv[1][0]) { if (!b.loadExceptDict (argv[1]) || !n.loadExceptDict (argv[1])) cerr << "dict" << endl; }
    string l;
    while (getline (cin, l)) {
        size_t t = l.find ('\t'); string w = l.substr (t + 1);
        PronunDAG d = (l[0] == 'b' ? b : n).parseWord (w);
        string o; char k = l[2];
        if (l[1] == 'j') o = JsonOutput (syl (k)).output (d);
        else if (l[1] == 'g') o = GroupedJsonOutput (syl (k)).output (d);
        else if (k == 'r') o = RomanOutput().output (d);
        else o = DelimOutput (syl (k), k == 'p' ? ' ' : k == 'w' ? ',' : '-').output (d);
        cout << o.size() << "\n" << o;
    }
    cout << flush;
}
