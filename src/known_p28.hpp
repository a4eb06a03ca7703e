// The inputs of the known finding k33-nested-k5-columns of P28: graphs made of columns of five vertices on which the
// search for K3,3 homeomorphs takes quadratic time (column edges, edges to the next column, ring, numbering).
#pragma once
static const struct { int A, B, wrap, numbering; } KNOWN_P28[] = {
    {0x3ee, 0x44, 0, 6}, {0x3ee, 0x820, 0, 6}, {0x3ee, 0x820, 1, 1}, {0x3fe, 0x24, 0, 6}, {0x3fe, 0x28, 0, 6}, {0x3fe, 0x44, 0, 6},
    {0x3fe, 0x48, 0, 1}, {0x3fe, 0x48, 0, 6}, {0x3fe, 0x50, 0, 1}, {0x3fe, 0x50, 0, 6}, {0x3fe, 0x81, 0, 1}, {0x3fe, 0x81, 0, 6},
    {0x3fe, 0x101, 0, 1}, {0x3fe, 0x101, 0, 6}, {0x3fe, 0x201, 0, 1}, {0x3fe, 0x201, 0, 6}, {0x3fe, 0x402, 0, 6}, {0x3fe, 0x801, 0, 1},
    {0x3fe, 0x801, 0, 6}, {0x3fe, 0x820, 0, 6}, {0x3fe, 0x8002, 0, 6}, {0x3fe, 0x10001, 0, 1}, {0x3fe, 0x10001, 0, 6}, {0x3fe, 0x10020, 0, 6},
    {0x3fe, 0x10020, 1, 1}, {0x3fe, 0x200001, 0, 1}, {0x3fe, 0x200001, 0, 6}, {0x3ff, 0x44, 0, 1}, {0x3ff, 0x44, 0, 6}, {0x3ff, 0x48, 0, 1},
    {0x3ff, 0x48, 0, 6}, {0x3ff, 0x50, 0, 1}, {0x3ff, 0x50, 0, 6}, {0x3ff, 0x81, 0, 1}, {0x3ff, 0x81, 0, 6}, {0x3ff, 0x101, 0, 1},
    {0x3ff, 0x101, 0, 6}, {0x3ff, 0x201, 0, 1}, {0x3ff, 0x201, 0, 6}, {0x3ff, 0x801, 0, 1}, {0x3ff, 0x801, 0, 6}, {0x3ff, 0x1002, 0, 6},
    {0x3ff, 0x1008, 0, 1}, {0x3ff, 0x1008, 0, 6}, {0x3ff, 0x1010, 0, 1}, {0x3ff, 0x1010, 0, 6}, {0x3ff, 0x1020, 0, 6}, {0x3ff, 0x1100, 0, 1},
    {0x3ff, 0x1100, 0, 6}, {0x3ff, 0x1200, 0, 1}, {0x3ff, 0x1200, 0, 6}, {0x3ff, 0x2001, 0, 1}, {0x3ff, 0x2001, 0, 6}, {0x3ff, 0x2040, 0, 1},
    {0x3ff, 0x4001, 0, 1}, {0x3ff, 0x4001, 0, 6}, {0x3ff, 0x4040, 0, 1}, {0x3ff, 0xa000, 1, 1}, {0x3ff, 0x10001, 0, 1}, {0x3ff, 0x10001, 0, 6},
    {0x3ff, 0x10020, 1, 1}, {0x3ff, 0x12000, 1, 1}, {0x3ff, 0x20001, 0, 1}, {0x3ff, 0x20001, 0, 6}, {0x3ff, 0x20040, 0, 1}, {0x3ff, 0x20400, 1, 1},
    {0x3ff, 0x20800, 1, 1}, {0x3ff, 0x40002, 0, 6}, {0x3ff, 0x40004, 0, 6}, {0x3ff, 0x40010, 0, 1}, {0x3ff, 0x40010, 0, 6}, {0x3ff, 0x40020, 0, 6},
    {0x3ff, 0x40080, 0, 6}, {0x3ff, 0x40200, 0, 1}, {0x3ff, 0x40200, 0, 6}, {0x3ff, 0x40400, 0, 6}, {0x3ff, 0x40800, 0, 6}, {0x3ff, 0x44000, 0, 1},
    {0x3ff, 0x44000, 0, 6}, {0x3ff, 0x80001, 0, 1}, {0x3ff, 0x80001, 0, 6}, {0x3ff, 0x80040, 0, 1}, {0x3ff, 0x81000, 0, 1}, {0x3ff, 0x200001, 0, 1},
    {0x3ff, 0x200001, 0, 6}, {0x3ff, 0x400001, 0, 1}, {0x3ff, 0x400001, 0, 6}, {0x3ff, 0x400040, 0, 1}, {0x3ff, 0x800001, 0, 1}, {0x3ff, 0x800001, 0, 6},
    {0x3ff, 0x800040, 0, 1}, {0x3ff, 0x801000, 0, 1}, {0x3ff, 0x1000002, 0, 1}, {0x3ff, 0x1000002, 0, 6}, {0x3ff, 0x1000004, 0, 1}, {0x3ff, 0x1000004, 0, 6},
    {0x3ff, 0x1000008, 0, 1}, {0x3ff, 0x1000008, 0, 6}, {0x3ff, 0x1000020, 0, 1}, {0x3ff, 0x1000020, 0, 6}, {0x3ff, 0x1000080, 0, 1}, {0x3ff, 0x1000080, 0, 6},
    {0x3ff, 0x1000100, 0, 1}, {0x3ff, 0x1000100, 0, 6}, {0x3ff, 0x1000400, 0, 1}, {0x3ff, 0x1000400, 0, 6}, {0x3ff, 0x1000800, 0, 1}, {0x3ff, 0x1000800, 0, 6},
    {0x3ff, 0x1002000, 0, 1}, {0x3ff, 0x1002000, 0, 6}, {0x3ff, 0x1008000, 0, 1}, {0x3ff, 0x1008000, 0, 6}, {0x3ff, 0x1010000, 0, 1}, {0x3ff, 0x1010000, 0, 6},
    {0x3ff, 0x1020000, 0, 1}, {0x3ff, 0x1020000, 0, 6},
};
