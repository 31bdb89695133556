// What a program using the library does with a set, compiled like the library
// itself, so that its memory accesses are seen by the thread simulator.
#pragma once
#include "model.h"
Model userLook(const Partio::ParticlesData& p,int path); // 0 data, 1 batches, 2 constant iterator, 3 as float (floats only, else data)
uint64_t userFill(Partio::ParticlesDataMutable& p,uint32_t salt); // writes every value, adds particles
