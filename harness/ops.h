// The catalogue of operations on series that C04, C05, C08 and others call: numeric ones (ops_numeric.cpp, ops_sub.cpp) and
// functional ones (ops_func.cpp), on a family of series of one count.
#pragma once
#include "common.h"

namespace h {

enum Slot {
    SL_A,  // any item size
    SL_B,  // same shape as A
    SL_S,  // scalars, no NaN
    SL_S2, // scalars, no NaN
    SL_V,  // 3 components
    SL_W,  // 3 components
    SL_Q,  // item size of A, no NaN
    SL_T3, // 2D symmetric tensors
    SL_T4, // 2D tensors
    SL_T6, // 3D symmetric tensors, moderate values
    SL_T9, // 3D tensors
    SL_Z,  // zipped: 1 + 3 + 2 components
    SL_P,  // positions
    SL_I,  // triangles over P
    SL_O,  // another count
    SL_N,  // default constructed
    SL_COUNT
};
struct Family {
    df::Serie s[SL_COUNT];
    u64 itemSize = 1, count = 0;
};
void fill_family(Family &f, int itemSize, uint32_t count, unsigned dim, int vk, u64 seed);
std::vector<Model> models_of(const Family &f);
void check_family(const Family &f, const std::vector<Model> &m, const char *when); // violation input-changed

// A callback may be told to throw (C08, C17) and counts its calls.
struct Hook {
    i64 throw_at = -1; // at the n-th callback call
    int kind = 0;      // what it throws
    i64 calls = 0;
    int yield = 0; // 1 in n calls yields
    bool thrown = false;
    bool always = false; // at every call, and no counting (shared by threads)
    i64 reenter_at = -1; // at the n-th callback call, another call into the library from inside the callback
    void (*reenter)(void *) = nullptr;
    void *reenter_arg = nullptr;
    void operator()();
    [[noreturn]] void fail(i64 n) const;
};
struct Call {
    int op = 0;
    u64 v = 0; // variant: numbers, alternative arguments
    Hook *hook = nullptr;
};

// Numeric operations
int numeric_ops();
const char *numeric_name(int op);
Outcome numeric(const Call &c, const Family &f);
// Functional and collection operations
int func_ops();
const char *func_name(int op);
bool func_has_callback(int op);
Outcome functional(const Call &c, const Family &f);

// in ops_sub.cpp (neither sub.h and add.h nor det.h and dot.h can be included together)
Outcome det_op(const df::Serie &s);
Outcome sub_op(int which, u64 v, const Family &f);

inline double small_number(u64 v) { return (double)((i64)(v % 41) - 20) / 4; }

} // namespace h
