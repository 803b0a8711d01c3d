// As generated by cmake where the C++17 parallel algorithms are available.
#pragma once
#define HAS_EXECUTION
