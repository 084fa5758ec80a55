// Written forms of syllables
#pragma once
#include "ortho.h"
// C initial letters, T tone mark, F final letter
struct Form { const char16_t* s; EVowel v; EEndConsClass e; };
static const EEndConsClass NO = EEndConsClass::NONE;
static const Form OPEN[] = {
    { u"CTะ", EVowel::A, NO }, { u"CTา", EVowel::AA, NO }, { u"CิT", EVowel::I, NO }, { u"CีT", EVowel::II, NO },
    { u"CึT", EVowel::UE, NO }, { u"CืTอ", EVowel::UEE, NO }, { u"CุT", EVowel::U, NO }, { u"CูT", EVowel::UU, NO },
    { u"เCTะ", EVowel::E, NO }, { u"เCT", EVowel::EE, NO }, { u"แCTะ", EVowel::AE, NO }, { u"แCT", EVowel::AEE, NO },
    { u"โCTะ", EVowel::O, NO }, { u"โCT", EVowel::OO, NO }, { u"เCTาะ", EVowel::AU, NO }, { u"CTอ", EVowel::AUU, NO },
    { u"เCTอะ", EVowel::OE, NO }, { u"เCTอ", EVowel::OEE, NO }, { u"เCีTย", EVowel::IAA, NO }, { u"เCีTยะ", EVowel::IA, NO },
    { u"เCืTอ", EVowel::UEAA, NO }, { u"เCืTอะ", EVowel::UEA, NO }, { u"CัTว", EVowel::UAA, NO }, { u"CัTวะ", EVowel::UA, NO },
    { u"CTำ", EVowel::A, EEndConsClass::KOM }, { u"ไCT", EVowel::A, EEndConsClass::KOEY }, { u"ใCT", EVowel::A, EEndConsClass::KOEY },
    { u"เCTา", EVowel::A, EEndConsClass::KOEW }, { u"เCTย", EVowel::OEE, EEndConsClass::KOEY },
};
static const Form CLOSED[] = {
    { u"CัTF", EVowel::A, NO }, { u"CTาF", EVowel::AA, NO }, { u"CิTF", EVowel::I, NO }, { u"CีTF", EVowel::II, NO },
    { u"CึTF", EVowel::UE, NO }, { u"CืTF", EVowel::UEE, NO }, { u"CุTF", EVowel::U, NO }, { u"CูTF", EVowel::UU, NO },
    { u"เC็F", EVowel::E, NO }, { u"เCTF", EVowel::EE, NO }, { u"แC็F", EVowel::AE, NO }, { u"แCTF", EVowel::AEE, NO },
    { u"CTF", EVowel::O, NO }, { u"โCTF", EVowel::OO, NO }, { u"C็อF", EVowel::AU, NO }, { u"CTอF", EVowel::AUU, NO },
    { u"เCิTF", EVowel::OEE, NO }, { u"เCีTยF", EVowel::IAA, NO }, { u"เCืTอF", EVowel::UEAA, NO }, { u"CTวF", EVowel::UAA, NO },
};
static u16string fill (const u16string& p, const u16string& c, int t, char16_t f)
{
    u16string r;
    for (auto x : p)
        if (x == u'C') r += c;
        else if (x == u'T') { if (t) r += char16_t (0xe47 + t); }
        else if (x == u'F') r += f;
        else r += x;
    return r;
}
struct Init { u16string s; EInitConsSound a; ESecInitCons b; int k; };
static vector<Init> initials()
{
    vector<Init> inits;
    for (char16_t c = 0xe01; c <= 0xe2e; ++c) if (ortho::cons (c)) inits.push_back ({ u16string (1, c), ortho::sound (c), ESecInitCons::NONE, ortho::klass (c) });
    for (char16_t c : u16string (u"งญนมยรลว")) inits.push_back ({ u16string (u"ห") + c, ortho::sound (c), ESecInitCons::NONE, 1 });
    for (const char16_t* c : { u"กร", u"กล", u"กว", u"ขร", u"ขล", u"ขว", u"คร", u"คล", u"คว", u"ปร", u"ปล", u"พร", u"พล", u"ผล", u"ตร" })
        inits.push_back ({ c, ortho::sound (c[0]), c[1] == u'ร' ? ESecInitCons::RA : c[1] == u'ล' ? ESecInitCons::LA : ESecInitCons::WA, ortho::klass (c[0]) });
    return inits;
}
// these would be other vowels, or nothing
static bool clash (const Init& i, const u16string& s, int t, char16_t c)
{
    if (s == u"CTF" && (c == u'ย' || c == u'ร' || c == u'ว' || i.b == ESecInitCons::WA)) return true;
    if (s == u"CัTF" && c == u'ว') return true;
    if ((s == u"CิTF" || s == u"CีTF" || s == u"เCTF") && c == u'ย') return true;
    return c == u'ร' && i.s.size() == 2 && i.s[1] == u'ร' && !t && s.find (u"CTF") != u16string::npos;
}
