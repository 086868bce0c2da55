#pragma once
constexpr uintptr_t ARENA_BASE = 0x200000000000ull;
constexpr uintptr_t ARENA_SIZE = 256ull << 20;
constexpr uintptr_t STACK_BASE = ARENA_BASE + ARENA_SIZE;
constexpr uintptr_t STACK_AREA = (uintptr_t)MAX_RANKS * MAX_TEAM * (1ull << 20);
constexpr uintptr_t REGION_SIZE = ARENA_SIZE + STACK_AREA;
constexpr uintptr_t CELL_BASE = 0x210000000000ull;
constexpr uintptr_t ASHADOW_BASE = 0x220000000000ull;
constexpr uintptr_t KSHADOW_BASE = 0x230000000000ull;
