// Generators of text, well-formed and not, in the three unit widths.
#pragma once
#include "engine.hpp"
#include "model.hpp"

namespace gen {

// numbers written in the sources under test: inputs worth trying as characters and as lengths.
// "novel" ones are not in the sources these checks were written for.
const Vec& literals();
const Vec& novel();
const std::vector<Vec>& novelStrings();         // string literals, likewise
size_t novelLengths();                          // how many entries enumLen spends on them

const Vec& boundaryCps();
uint32_t cp(Rng& r, uint32_t max);              // a non-zero, non-surrogate code point <= max
Vec text(Rng& r, uint32_t max);                 // code points
size_t length(Rng& r);
uint32_t maxFor(Rng& r);                        // 0x7f, 0xffff, 0x10ffff, 0x7fffffff, 0xffffffff by chance
Vec u8(Rng& r);                                 // UTF-8 bytes, possibly malformed, no nulls
Vec u16(Rng& r);                                // UTF-16 units, possibly malformed, no nulls
Vec u32(Rng& r);                                // 32-bit units, possibly malformed, no nulls
Vec longText(Rng& r, uint32_t max);             // long, with one odd character somewhere
void mutate8(Rng& r, Vec& v);

// exhaustive small domains; level 0 quick, 1 thorough
uint64_t enumU8(int level);   Vec enumU8At(uint64_t i, int level);
uint64_t enumU16(int level);  Vec enumU16At(uint64_t i, int level);
uint64_t enumU32(int level);  Vec enumU32At(uint64_t i, int level);
uint64_t enumCp();            uint32_t enumCpAt(uint64_t i);    // every code point, then boundaries up to 2^32
uint64_t enumLen(int level);  Vec enumLenAt(uint64_t i, int level, uint32_t max);   // code point texts of all lengths

}
