// -*- mode: Bluespec; -*-
// The widths of the machine the program runs on.  Every module of the specification
// is parametrized by one Scale, so that the same definitions serve the conformance
// check (DEPLOYED) and exhaustive exploration of a tiny machine (TINY).
module scale {
  type Scale = {
    one: int,      // raw value of 1 in the 18-decimal fixed-point type
    rone: int,     // its square root
    sqbits: int,   // bits of the integer handed to the square root
    pone: int,     // raw value of 1 in the 12-decimal fixed-point type
    snap: int,     // closeness at which its square root stops
    m64: int,      // largest amount of base units
    m128: int,     // largest intermediate amount
    m256: int,     // largest raw fixed-point value
    initial: int   // pool tokens issued when a pool is created
  }
  pure val DEPLOYED: Scale = {
    one: 10^18, rone: 10^9, sqbits: 64, pone: 10^12, snap: 100,
    m64: 2^64 - 1, m128: 2^128 - 1, m256: 2^256 - 1, initial: 10^9
  }
  pure val TINY: Scale = {
    one: 16, rone: 4, sqbits: 8, pone: 16, snap: 1,
    m64: 63, m128: 4095, m256: 262143, initial: 8
  }
  /// small enough for the 32-bit integers of TLC
  pure val NANO: Scale = {
    one: 8, rone: 3, sqbits: 6, pone: 16, snap: 1,
    m64: 31, m128: 1023, m256: 8191, initial: 6
  }
}
