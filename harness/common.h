// shared pieces of the replay / bounded drivers
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <string>
#include <vector>
#include <iostream>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <locale>
#include <codecvt>
#include "sylstring/sylstring.h"

static long g_evals = 0, g_distinct = 0, g_fails = 0;
inline void FAIL (const std::string& s)
{
    std::string t;
    for (char c : s) t += (c == '\n') ? std::string ("\\n") : std::string (1, c);
    if (g_fails++ < 20) std::cout << "FAIL " << t << std::endl;
}
inline int DONE()
{
    std::cout << "STAT evaluations=" << g_evals << " distinct=" << g_distinct << std::endl;
    return g_fails ? 1 : 0;
}
struct Rng {
    uint64_t s;
    explicit Rng (uint64_t seed) : s (seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
    int below (int n) { return (int) ((next() >> 11) % (uint64_t) n); }
    int range (int a, int b) { return a + below (b - a + 1); }
};
inline std::string u8 (const std::u16string& s)
{
    std::wstring_convert<std::codecvt_utf8_utf16<char16_t>, char16_t> cv;
    return cv.to_bytes (s);
}
inline std::u16string u16 (const std::string& s)
{
    std::wstring_convert<std::codecvt_utf8_utf16<char16_t>, char16_t> cv;
    return cv.from_bytes (s);
}
#define NM(x) { EN_::x, #x }
static const std::vector<std::pair<EInitConsSound, const char*>> SOUNDS = {
#define EN_ EInitConsSound
 NM(KA), NM(KHA), NM(NGA), NM(JA), NM(CHA), NM(YA), NM(DA), NM(TA), NM(THA), NM(NA), NM(BA), NM(PA), NM(PHA), NM(FA),
 NM(MA), NM(RA), NM(LA), NM(WA), NM(SA), NM(HA), NM(A)
#undef EN_
};
static const std::vector<std::pair<ESecInitCons, const char*>> SECS = {
#define EN_ ESecInitCons
 NM(NONE), NM(RA), NM(LA), NM(WA)
#undef EN_
};
static const std::vector<std::pair<EVowel, const char*>> VOWELS = {
#define EN_ EVowel
 NM(A), NM(AA), NM(I), NM(II), NM(UE), NM(UEE), NM(U), NM(UU), NM(E), NM(EE), NM(AE), NM(AEE), NM(IA), NM(IAA), NM(UEA),
 NM(UEAA), NM(UA), NM(UAA), NM(O), NM(OO), NM(AU), NM(AUU), NM(OE), NM(OEE)
#undef EN_
};
static const std::vector<std::pair<EEndConsClass, const char*>> ENDS = {
#define EN_ EEndConsClass
 NM(NONE), NM(KOK), NM(KOT), NM(KOP), NM(KONG), NM(KON), NM(KOM), NM(KOEY), NM(KOEW)
#undef EN_
};
static const std::vector<std::pair<ETone, const char*>> TONES = {
#define EN_ ETone
 NM(SAMAN), NM(EK), NM(THO), NM(TRI), NM(CHATTAWA)
#undef EN_
};
static const std::vector<std::pair<EInitConsClass, const char*>> CLASSES = {
#define EN_ EInitConsClass
 NM(INVALID), NM(HIGH), NM(MID), NM(LOWP), NM(LOWS)
#undef EN_
};
template <class T> inline std::string nameof (const std::vector<std::pair<T, const char*>>& v, T x)
{
    for (auto& p : v) if (p.first == x) return p.second;
    return "#" + std::to_string ((int) x);
}
inline std::string show (const Syl& s)
{
    if (s.isLiteral()) return "(" + u8 (s.literal()) + ")@" + std::to_string (s.endPos());
    return nameof (SOUNDS, s.iCons1()) + "/" + nameof (SECS, s.iCons2()) + "/" + nameof (VOWELS, s.vowel()) + "/"
         + nameof (ENDS, s.eCons()) + "/" + nameof (TONES, s.tone()) + "@" + std::to_string (s.endPos());
}
inline std::string show (const SylString& s)
{
    std::string r = "[";
    for (auto& x : s) r += show (x) + " ";
    return r + "]";
}
inline Syl rnd_syl (Rng& r, int endPos)
{
    return Syl (SOUNDS[r.below (SOUNDS.size())].first, SECS[r.below (SECS.size())].first,
                VOWELS[r.below (VOWELS.size())].first, ENDS[r.below (ENDS.size())].first,
                TONES[r.below (TONES.size())].first, endPos);
}
#endif
