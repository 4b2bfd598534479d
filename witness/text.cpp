// Compression and base64 helpers: the library's own sources, analysed as they are.
#include <cstddef>
#include <zlib.h>

#include <src/common_robotics_utilities/base64_helpers.cpp>
#include <src/common_robotics_utilities/zlib_helpers.cpp>

// Members of the stream state.
const void* stream_next_in(const z_stream& s) { return &s.next_in; }
const void* stream_avail_in(const z_stream& s) { return &s.avail_in; }
const void* stream_next_out(const z_stream& s) { return &s.next_out; }
const void* stream_avail_out(const z_stream& s) { return &s.avail_out; }
const void* stream_zalloc(const z_stream& s) { return &s.zalloc; }
const void* stream_zfree(const z_stream& s) { return &s.zfree; }
const void* stream_total_out(const z_stream& s) { return &s.total_out; }
const void* stream_state(const z_stream& s) { return &s.state; }
