#pragma once
#ifdef MOCK_DESC_MAX
#define LLDESC_MAX_NUM_PER_DESC MOCK_DESC_MAX
#else
#define LLDESC_MAX_NUM_PER_DESC (4096 - 4)
#endif
