#pragma once
#include "model.h"
using namespace model;
// Large features in every shape: many coordinates, many parts, many rings, nested.
inline Geom Huge(int shape, int dims, uint32_t n) {
  Geom g;
  g.dims = dims;
  auto line = [&](int t, uint32_t k) {
    Geom l;
    l.type = t;
    l.dims = dims;
    for (uint32_t i = 0; i < k * (uint32_t)Nd(dims); i++) l.c.push_back((double)(i % 7));
    return l;
  };
  auto many = [&](int t, int kid, uint32_t k, uint32_t each) {
    Geom m;
    m.type = t;
    m.dims = dims;
    for (uint32_t i = 0; i < k; i++) m.kids.push_back(line(kid, each));
    return m;
  };
  switch (shape) {
    case 0:
      return line(LS, n);
    case 1:
      return many(MPT, PT, n, 1);
    case 2:
      return many(PG, RING, n / 4, 4);
    case 3:
      return many(MLS, LS, n / 2, 2);
    case 4:
      return many(MLS, LS, n, 0);
    case 5: {
      g.type = MPG;
      for (uint32_t i = 0; i < n / 4; i++) g.kids.push_back(many(PG, RING, 1, 4));
      return g;
    }
    case 6: {
      g.type = GC;
      for (uint32_t i = 0; i < n; i++) g.kids.push_back(line(i % 2 ? PT : LS, i % 3 ? 1 : 0));
      return g;
    }
    default:
      return many(PG, RING, 1, n);
  }
}
