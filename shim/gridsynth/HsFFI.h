// Stand-in for GHC's runtime header: Gridsynth itself is a Haskell library that is not available here.
#pragma once
inline int vf_haskell_started = 0;
inline void hs_init(int*, char***) { ++vf_haskell_started; }
inline void hs_exit() {}
