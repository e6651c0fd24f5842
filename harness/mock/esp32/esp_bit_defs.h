#pragma once
#define BIT(n) (1UL << (n))
#define BIT64(n) (1ULL << (n))
