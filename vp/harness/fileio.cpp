// Reading and writing files of vectors (core/io/*.h, core/data/io.h, lib/readwrite.h, lib/file_iterator.h).
// The standard streams are external: their members are contracts over a ghost file.
#include "common.h"
#include "svs/core/data/simple.h"
#include "svs/core/data/io.h"
#include "svs/core/io.h"
using namespace svs;
extern "C" {
void vp_set(size_t i, const void* p, size_t n);
void vp_append(size_t i);
void vp_writer(size_t dims, size_t tag);
void vp_writer_done();
}
template <class T> struct Vecs {
    using element_type = T;
    using value_type = std::span<T>;
    using const_value_type = std::span<const T>;
    size_t n, dims;
    size_t size() const { return n; }
    size_t dimensions() const { return dims; }
    std::span<T> get_datum(size_t i) { return std::span<T>(reinterpret_cast<T*>(i), dims); }
    std::span<const T> get_datum(size_t i) const { return std::span<const T>(reinterpret_cast<const T*>(i), dims); }
    void set_datum(size_t i, std::span<const T> v) { vp_set(i, v.data(), v.size()); }
    void prefetch(size_t) const {}
};
// hands out a reader that exists already
template <class R> struct Same {
    R* r;
    auto begin() { return r->begin(); }
    auto end() { return r->end(); }
};
struct NoFile {};
template <class R> struct Acc : io::DefaultWriteAccessor {
    R* r;
    explicit Acc(R& x) : r{&x} {}
    template <class D, class F> Same<R> reader(const D&, const F&) const { return {r}; }
};
struct OutFile {
    struct W {
        W() = default;
        W(const W&) = delete;
        ~W() { vp_writer_done(); }
        W& operator<<(std::span<const float> v) { vp_append(reinterpret_cast<size_t>(v.data())); return *this; }
    };
    W writer(size_t dims, lib::UUID) const { vp_writer(dims, 0); return {}; }
};
// a file that tells its number of vectors and dimension, possibly depending on the size of an element
extern "C" {
size_t vp_file_n(size_t hint);
size_t vp_file_dims(size_t hint);
void vp_make(size_t n, size_t dims);
void vp_fill(size_t n, size_t dims);
}
struct AnyReader {
    size_t i = 0;
    struct End {};
    AnyReader begin() { return *this; }
    End end() { return {}; }
    std::span<const float> operator*() { return {}; }
    AnyReader& operator++() { return *this; }
    bool operator!=(End) const { return false; }
};
template <bool Hinted> struct InFile;
template <> struct InFile<true> {
    template <class T> using reader_type = AnyReader;
    std::pair<size_t, size_t> get_dims(size_t hint = 0) const { return {vp_file_n(hint), vp_file_dims(hint)}; }
    template <class T> AnyReader reader(lib::Type<T>, size_t max = Dynamic) const { vp_fill(sizeof(T), max); return {}; }
};
template <> struct InFile<false> {
    template <class T> using reader_type = AnyReader;
    std::pair<size_t, size_t> get_dims() const { return {vp_file_n(sizeof(float)), vp_file_dims(sizeof(float))}; }
    template <class T> AnyReader reader(lib::Type<T>, size_t max = Dynamic) const { vp_fill(sizeof(T), max); return {}; }
};
using VW = io::vecs::VecsWriter<float>;
using VWB = io::vecs::VecsWriter<uint8_t>;
using NW = io::v1::Writer<void>;
using NWB = io::v1::Writer<uint8_t>;
using BW = io::binary::BinaryWriter<float>;
using VR = io::vecs::VecsReader<float>;
using VRB = io::vecs::VecsReader<uint8_t>;
using NR = io::Reader<float>;
using NRB = io::Reader<uint8_t>;
using BR = io::binary::BinaryReader<float>;
VP_OFFSET(vr_max, VR, max_lines_)
VP_OFFSET(vr_dims, VR, dimensions_per_vector_)
VP_OFFSET(vr_n, VR, vectors_in_file_)
VP_OFFSET(br_max, BR, max_lines_)
VP_OFFSET(br_dims, BR, dimensions_per_vector_)
VP_OFFSET(br_n, BR, vectors_in_file_)
VP_OFFSET(nr_n, NR, nvectors_)
VP_OFFSET(nr_dims, NR, ndims_)
VP_OFFSET(nr_off, NR, offset_)
VP_OFFSET(nw_dims, NW, dimension_)
VP_OFFSET(nw_uuid, NW, uuid_)
VP_OFFSET(nw_n, NW, vectors_written_)
VP_OFFSET(nw_stream, NW, stream_)
VP_OFFSET(vw_stream, VW, stream_)
VP_OFFSET(bw_stream, BW, stream_)
VP_CONST(vr_sizeof, sizeof(VR))
VP_CONST(br_sizeof, sizeof(BR))
VP_CONST(nr_sizeof, sizeof(NR))
VP_CONST(nw_sizeof, sizeof(NW))
VP_CONST(vw_sizeof, sizeof(VW))
VP_CONST(bw_sizeof, sizeof(BW))
VP_CONST(vw_dims, __builtin_offsetof(VW, dimension_))
VP_OFFSET(h_magic, io::v1::Header, magic_)
VP_OFFSET(h_uuid, io::v1::Header, uuid_)
VP_OFFSET(h_n, io::v1::Header, num_vectors_)
VP_OFFSET(h_dims, io::v1::Header, dimensions_per_vector_)
VP_CONST(h_sizeof, sizeof(io::v1::Header))
VP_CONST(h_number, io::v1::magic_number)
VP_CONST(bh_sizeof, sizeof(io::binary::Header))
extern "C" {
void vp_vecs_append_f32(VW& w, const float* p, size_t n) { w.append(std::span<const float>(p, n)); }
void vp_vecs_append_u8(VWB& w, const uint8_t* p, size_t n) { w.append(std::span<const uint8_t>(p, n)); }
void vp_native_append_f32(NW& w, const float* p, size_t n) { w.append(std::span<const float>(p, n)); }
void vp_native_append_u8(NWB& w, const uint8_t* p, size_t n) { w.append(std::span<const uint8_t>(p, n)); }
void vp_bin_append_f32(BW& w, const float* p, size_t n) { w.append(std::span<const float>(p, n)); }
void vp_native_header(NW& w, bool resume) { w.writeheader(resume); }
void vp_save(const Vecs<float>& d, const OutFile& f) { io::save(d, f, lib::ZeroUUID); }
void vp_populate_vecs_f32(Vecs<float>& d, VR& r) { Acc<VR> a(r); io::populate(d, a, NoFile()); }
void vp_populate_vecs_u8(Vecs<uint8_t>& d, VRB& r) { Acc<VRB> a(r); io::populate(d, a, NoFile()); }
void vp_populate_native_f32(Vecs<float>& d, NR& r) { Acc<NR> a(r); io::populate(d, a, NoFile()); }
void vp_populate_native_u8(Vecs<uint8_t>& d, NRB& r) { Acc<NRB> a(r); io::populate(d, a, NoFile()); }
void vp_populate_bin_f32(Vecs<float>& d, BR& r) { Acc<BR> a(r); io::populate(d, a, NoFile()); }
void vp_vecs_dims(std::ifstream& s, size_t hint, size_t* out) { auto [a, b] = io::vecs::get_dims(s, std::string_view(), hint); out[0] = a; out[1] = b; }
void vp_bin_dims(std::ifstream& s, size_t hint, size_t* out) { auto [a, b] = io::binary::get_dims(s, std::string_view(), hint); out[0] = a; out[1] = b; }
void vp_native_dims(std::ifstream& s, size_t* out) { auto [a, b] = io::detail::get_dims<io::v1::Header>(s); out[0] = a; out[1] = b; }
int vp_schema(uint64_t magic) { auto x = io::from_magic_number(magic); return x ? (int)x.value() : -1; }
void vp_native_writer(NW* out, const std::string& f, size_t dims, const lib::UUID& id) { new (out) NW(f, dims, id); }
void vp_bin_writer(BW* out, std::ofstream&& s, size_t n, size_t dims) { new (out) BW(std::move(s), n, dims); }
void vp_vecs_resize(VR& r, size_t max) { r.resize(max); }
void vp_bin_resize(BR& r, size_t max) { r.resize(max); }
void vp_native_append_tuple(NW& w, uint64_t id, float x, uint8_t y) { w.append(std::tuple<uint64_t, float, uint8_t>(id, x, y)); }
void vp_vecs_reader(VR* out, const std::string& f, size_t max) { new (out) VR(f, max); }
void vp_vecs_reader_u8(VRB* out, const std::string& f, size_t max) { new (out) VRB(f, max); }
void vp_bin_reader(BR* out, const std::string& f, size_t max) { new (out) BR(f, max); }
void vp_native_reader(NR* out, const io::v1::NativeFile& f, size_t max) { new (out) NR(f.reader(lib::Type<float>(), max)); }
void vp_load_hinted(Vecs<float>* out, const InFile<true>& f) { new (out) Vecs<float>(io::load_dataset(f, lib::Lazy([](size_t n, size_t d) { vp_make(n, d); return Vecs<float>{n, d}; }))); }
void vp_load_plain(Vecs<float>* out, const InFile<false>& f) { new (out) Vecs<float>(io::load_dataset(f, lib::Lazy([](size_t n, size_t d) { vp_make(n, d); return Vecs<float>{n, d}; }))); }
}
