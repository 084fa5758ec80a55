// Thai orthography for the oracles (same tables as contracts/spec.py, independent of the code under test)
#ifndef VERIF_ORTHO_H
#define VERIF_ORTHO_H
#include "common.h"
namespace ortho {
static const std::u16string MID = u"\u0e01\u0e08\u0e0e\u0e0f\u0e14\u0e15\u0e1a\u0e1b\u0e2d", HIGH = u"\u0e02\u0e03\u0e09\u0e10\u0e16\u0e1c\u0e1d\u0e28\u0e29\u0e2a\u0e2b", LOWP = u"\u0e04\u0e05\u0e06\u0e0a\u0e0b\u0e0c\u0e11\u0e12\u0e17\u0e18\u0e1e\u0e1f\u0e20\u0e2e", LOWS = u"\u0e07\u0e0d\u0e13\u0e19\u0e21\u0e22\u0e23\u0e25\u0e27\u0e2c";
static const std::vector<std::pair<EInitConsSound, std::u16string>> SOUND = {
  { EInitConsSound::KA, u"\u0e01" },
  { EInitConsSound::KHA, u"\u0e02\u0e03\u0e04\u0e05\u0e06" },
  { EInitConsSound::NGA, u"\u0e07" },
  { EInitConsSound::JA, u"\u0e08" },
  { EInitConsSound::CHA, u"\u0e09\u0e0a\u0e0c" },
  { EInitConsSound::YA, u"\u0e0d\u0e22" },
  { EInitConsSound::DA, u"\u0e0e\u0e14" },
  { EInitConsSound::TA, u"\u0e0f\u0e15" },
  { EInitConsSound::THA, u"\u0e10\u0e11\u0e12\u0e16\u0e17\u0e18" },
  { EInitConsSound::NA, u"\u0e13\u0e19" },
  { EInitConsSound::BA, u"\u0e1a" },
  { EInitConsSound::PA, u"\u0e1b" },
  { EInitConsSound::PHA, u"\u0e1c\u0e1e\u0e20" },
  { EInitConsSound::FA, u"\u0e1d\u0e1f" },
  { EInitConsSound::MA, u"\u0e21" },
  { EInitConsSound::RA, u"\u0e23" },
  { EInitConsSound::LA, u"\u0e25\u0e2c" },
  { EInitConsSound::WA, u"\u0e27" },
  { EInitConsSound::SA, u"\u0e0b\u0e28\u0e29\u0e2a" },
  { EInitConsSound::HA, u"\u0e2b\u0e2e" },
  { EInitConsSound::A, u"\u0e2d" },
};
static const std::vector<std::pair<EEndConsClass, std::u16string>> FINAL = {
  { EEndConsClass::KOK, u"\u0e01\u0e02\u0e03\u0e04\u0e05\u0e06" },
  { EEndConsClass::KOT, u"\u0e08\u0e09\u0e0a\u0e0b\u0e0c\u0e0e\u0e0f\u0e10\u0e11\u0e12\u0e14\u0e15\u0e16\u0e17\u0e18\u0e28\u0e29\u0e2a" },
  { EEndConsClass::KOP, u"\u0e1a\u0e1b\u0e1c\u0e1d\u0e1e\u0e1f\u0e20" },
  { EEndConsClass::KONG, u"\u0e07" },
  { EEndConsClass::KON, u"\u0e0d\u0e13\u0e19\u0e23\u0e25\u0e2c" },
  { EEndConsClass::KOM, u"\u0e21" },
  { EEndConsClass::KOEY, u"\u0e22" },
  { EEndConsClass::KOEW, u"\u0e27" },
  { EEndConsClass::NONE, u"\u0e2b\u0e2d\u0e2e" },
};

inline bool in (const std::u16string& s, char16_t c) { return s.find (c) != std::u16string::npos; }
inline bool cons (char16_t c) { return c >= 0xe01 && c <= 0xe2e && c != 0xe24 && c != 0xe26; }
inline bool vowel (char16_t c) { return c == 0xe24 || c == 0xe26 || (c >= 0xe30 && c <= 0xe39) || (c >= 0xe40 && c <= 0xe45); }
inline bool tonemark (char16_t c) { return c >= 0xe48 && c <= 0xe4b; }
inline bool ldvowel (char16_t c) { return c >= 0xe40 && c <= 0xe44; }
inline bool token (char16_t c) { return c == u'.' || cons (c) || vowel (c) || tonemark (c) || c == 0xe47 || c == 0xe4c; }
inline bool sylstart (char16_t c) { return cons (c) || ldvowel (c); }
// 0 mid, 1 high, 2 low
inline int klass (char16_t c) { return in (MID, c) ? 0 : in (HIGH, c) ? 1 : (in (LOWP, c) || in (LOWS, c) || c == 0xe24 || c == 0xe26) ? 2 : -1; }
inline EInitConsSound sound (char16_t c)
{
    if (c == 0xe24) return EInitConsSound::RA;
    if (c == 0xe26) return EInitConsSound::LA;
    for (auto& p : SOUND) if (in (p.second, c)) return p.first;
    return EInitConsSound::INVALID;
}
// final classes a letter can stand for
inline bool finals (char16_t c, EEndConsClass e)
{
    if (c == 0xe33) return e == EEndConsClass::KOM;                   // am
    if (c == 0xe43 || c == 0xe44) return e == EEndConsClass::KOEY;    // ai
    if (c == 0xe32) return e == EEndConsClass::KOEW;                  // (e-)aa
    for (auto& p : FINAL) if (in (p.second, c)) return p.first == e;
    return false;
}
inline bool isShort (EVowel v)
{
    switch (v) {
    case EVowel::A: case EVowel::I: case EVowel::UE: case EVowel::U: case EVowel::E: case EVowel::AE: case EVowel::IA: case EVowel::UEA:
    case EVowel::UA: case EVowel::O: case EVowel::AU: case EVowel::OE: return true;
    default: return false;
    }
}
inline bool dead (EVowel v, EEndConsClass e)
{
    if (e == EEndConsClass::NONE) return isShort (v);
    return e == EEndConsClass::KOK || e == EEndConsClass::KOT || e == EEndConsClass::KOP;
}
// mark: 0 none, 1 ek .. 4 chattawa
inline ETone tone (int k, int mark, bool dead, bool sh)
{
    static const ETone T[] = { ETone::SAMAN, ETone::EK, ETone::THO, ETone::TRI, ETone::CHATTAWA };
    if (mark == 0) {
        if (!dead) return k == 1 ? ETone::CHATTAWA : ETone::SAMAN;
        if (k != 2) return ETone::EK;
        return sh ? ETone::TRI : ETone::THO;
    }
    if (k == 2 && mark < 3) return T[mark + 1];
    return T[mark];
}
}
#endif
