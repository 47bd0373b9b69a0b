// Dataframes, managers of decomposers and queries on them (C06, C08, C15).
#pragma once
#include "ops.h"
#include <dataframe/Dataframe.h>
#include <dataframe/attributes/Manager.h>

namespace h {

enum { FR_POSITIONS, FR_INDICES, FR_U, FR_S, FR_T, FR_A, FR_S2, FR_V2, FR_W, FR_X, FR_M, FR_SERIES };
enum { DE_COMPONENTS, DE_COORDINATES, DE_NORMALS, DE_AREA, DE_VALENCE, DE_EIGENVALUES, DE_EIGENVECTORS, DE_USER, DE_KINDS };

// the series `which` of a frame of n items; indices refer to at least 4 positions
const char *frame_series_name(int which);
df::Serie frame_series(int which, uint32_t n, u64 seed);
// all series in the bit set, in a fixed order
void fill_frame(df::Dataframe &d, u64 bits, uint32_t n, u64 seed);
// a new decomposer; hook (may be null) is called by the user-defined one
df::Decomposer *make_decomposer(int kind, Hook *hook);
std::unique_ptr<df::Manager> make_manager(const df::Dataframe &d, u64 kinds, u64 order, Hook *hook, unsigned dim = 3);

int queries();
const char *query_name(int q);
int query_names(); // how many names a query can ask for
std::string query_arg(u64 v);
Outcome query(int q, u64 v, const df::Dataframe &d, const df::Manager &m);

// plain content of a dataframe
using FrameModel = std::map<std::string, Model>;
FrameModel model_of(const df::Dataframe &d);
std::string show(const FrameModel &m);

} // namespace h
