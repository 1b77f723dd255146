// contract of the HDF5 library: every call may fail; handles are followed one by one
#pragma once
#include <vc.h>
typedef long hid_t;
typedef int herr_t;
typedef unsigned long long hsize_t;
typedef long long hssize_t;
typedef int htri_t;
typedef enum H5S_class_t { H5S_NO_CLASS = -1, H5S_SCALAR = 0, H5S_SIMPLE = 1, H5S_NULL = 2 } H5S_class_t;
typedef enum H5T_cset_t { H5T_CSET_ASCII = 0, H5T_CSET_UTF8 = 1 } H5T_cset_t;
#define H5P_DEFAULT 0L
#define H5S_ALL 0L
#define H5F_ACC_RDONLY 0u
#define H5F_ACC_RDWR 1u
#define H5F_ACC_TRUNC 2u
#define H5I_INVALID_HID (-1L)
#define H5T_C_S1 1000001L
#define H5T_NATIVE_DOUBLE 1000002L
#define H5T_NATIVE_INT 1000003L
namespace vch5 {
enum Kind { FILE_ = 1, DSET, SPACE, TYPE, ATTR, GROUP, PLIST };
constexpr int max_slots = 48;
inline int nslots = 0;
inline int kind[max_slots] = {}, parent[max_slots] = {};
inline bool is_open[max_slots] = {};
inline long rank_[max_slots] = {}; // of a dataspace
inline unsigned long long ext[max_slots][3] = {};
inline int coord[max_slots] = {}; // 1 + number of the coordinate stored in a dataset, or in the dataset of a dataspace
inline bool no_failure = false;
inline long hint[3] = {-1, -1, -1}; // replays only: the rows and columns of the profiles in the file
inline long given[3] = {-1, -1, -1}; // when not negative: the coordinates in the file, one-dimensional with these extents
inline char const* last_name = nullptr;
inline int nopened_files = 0;
inline unsigned file_mode = 0;
inline char const* file_name = nullptr;
inline long slot_id(int s) { return 101 + 7 * s; }
inline void reset() { nslots = 0; no_failure = false; nopened_files = 0; for (int s = 0; s < max_slots; ++s) { is_open[s] = false; kind[s] = 0; coord[s] = 0; } }
inline long acquire(int k)
{
    bool const ok = no_failure || vc_bool("HDF5 opens the object");
    if (nslots >= max_slots) { vc_assert("HDF5: no more handles than followed", false); return -1; }
    int const s = nslots;
    nslots = nslots + 1;
    kind[s] = k;
    is_open[s] = ok;
    return ok ? slot_id(s) : -1;
}
inline bool valid(long id, int k)
{
    bool r = false;
    for (int s = 0; s < max_slots; ++s) r = r || (slot_id(s) == id && is_open[s] && (kind[s] == k));
    return r;
}
inline bool open_any(long id)
{
    bool r = false;
    for (int s = 0; s < max_slots; ++s) r = r || (slot_id(s) == id && is_open[s]);
    return r;
}
inline void need(char const* what, long id, int k) { vc_assert(what, valid(id, k)); }
inline herr_t release(long id, int k)
{
    vc_assert("HDF5: a handle is released once, by the function of its kind, while it is open", valid(id, k));
    for (int s = 0; s < max_slots; ++s) is_open[s] = is_open[s] && slot_id(s) != id;
    return vc_bool("HDF5 reports a failed release") ? -1 : 0;
}
// 1, 2 or 3 for the dataset of x0, x1 or x2, 0 for another one
inline int coordinate(char const* p)
{
    if (*p == '/') ++p;
    return p[0] == 'x' && p[1] >= '0' && p[1] <= '2' && p[2] == 0 ? 1 + (p[1] - '0') : 0;
}
inline herr_t status() { return no_failure || vc_bool("HDF5 call succeeds") ? 0 : -1; }
inline bool balanced()
{
    bool r = true;
    for (int s = 0; s < max_slots; ++s) r = r && !is_open[s];
    return r;
}
} // namespace vch5
inline hid_t H5Fopen(char const* name, unsigned mode, hid_t) { vch5::nopened_files = vch5::nopened_files + 1; vch5::file_mode = mode; vch5::file_name = name; return vch5::acquire(vch5::FILE_); }
inline hid_t H5Fcreate(char const* name, unsigned mode, hid_t, hid_t) { return H5Fopen(name, mode, 0); }
inline herr_t H5Fclose(hid_t id) { return vch5::release(id, vch5::FILE_); }
inline herr_t H5Fflush(hid_t id, int) { vch5::need("HDF5: a file is used while it is open", id, vch5::FILE_); return vch5::status(); }
inline hid_t H5Dopen2(hid_t f, char const* name, hid_t)
{
    vc_assert("HDF5: objects are opened in an open file or group", vch5::valid(f, vch5::FILE_) || vch5::valid(f, vch5::GROUP));
    hid_t const r = vch5::acquire(vch5::DSET);
    vch5::coord[vch5::nslots - 1] = vch5::coordinate(name);
    return r;
}
#define H5Dopen H5Dopen2
inline herr_t H5Dclose(hid_t id) { return vch5::release(id, vch5::DSET); }
inline hid_t new_space(long rank, unsigned long long e0, unsigned long long e1, unsigned long long e2)
{
    hid_t const r = vch5::acquire(vch5::SPACE);
    int const s = vch5::nslots - 1;
    vch5::rank_[s] = rank; vch5::ext[s][0] = e0; vch5::ext[s][1] = e1; vch5::ext[s][2] = e2;
    return r;
}
inline hid_t H5Dget_space(hid_t d)
{
    vch5::need("HDF5: a dataset is used while it is open", d, vch5::DSET);
    long const r = vc_int("rank of the dataset in the file", 0, 3);
    int c = 0;
    for (int s = 0; s < vch5::max_slots; ++s) if (vch5::slot_id(s) == d) c = vch5::coord[s];
#ifdef VC_NATIVE
    if (vch5::hint[0] >= 0) {
        vch5::hint[2] += 1;
        hid_t const i = vch5::hint[2] < 4 ? new_space(1, vch5::hint[0], 0, 0) : new_space(2, vch5::hint[1], vch5::hint[0], 0);
        vch5::coord[vch5::nslots - 1] = c;
        return i;
    }
#endif
    if (c > 0 && vch5::given[c - 1] >= 0) {
        hid_t const i = new_space(1, static_cast<unsigned long long>(vch5::given[c - 1]), 0, 0);
        vch5::coord[vch5::nslots - 1] = c;
        return i;
    }
    hid_t const id = new_space(r, static_cast<unsigned long long>(vc_int("extent in the file", 0, 1000000000)), static_cast<unsigned long long>(vc_int("extent in the file", 0, 1000000000)), static_cast<unsigned long long>(vc_int("extent in the file", 0, 1000000000)));
    vch5::coord[vch5::nslots - 1] = c;
    return id;
}
inline hid_t H5Dget_type(hid_t d) { vch5::need("HDF5: a dataset is used while it is open", d, vch5::DSET); return vch5::acquire(vch5::TYPE); }
inline herr_t H5Dread(hid_t d, hid_t, hid_t, hid_t, hid_t, void*) { vch5::need("HDF5: a dataset is used while it is open", d, vch5::DSET); return vch5::status(); }
inline herr_t H5Sclose(hid_t id) { return vch5::release(id, vch5::SPACE); }
inline hid_t H5Screate(H5S_class_t) { return new_space(0, 0, 0, 0); }
inline int H5Sget_simple_extent_ndims(hid_t id)
{
    vch5::need("HDF5: a dataspace is used while it is open", id, vch5::SPACE);
    if (!vch5::no_failure && vc_bool("HDF5 does not know the rank")) return -1;
    long r = 0;
    for (int s = 0; s < vch5::max_slots; ++s) if (vch5::slot_id(s) == id) r = vch5::rank_[s];
    return static_cast<int>(r);
}
inline int H5Sget_simple_extent_dims(hid_t id, hsize_t* dims, hsize_t* maxdims)
{
    vch5::need("HDF5: a dataspace is used while it is open", id, vch5::SPACE);
    if (!vch5::no_failure && vc_bool("HDF5 does not know the extents")) return -1;
    long r = 0;
    for (int s = 0; s < vch5::max_slots; ++s)
        if (vch5::slot_id(s) == id) {
            r = vch5::rank_[s];
            for (int k = 0; k < 3; ++k) if (k < r) { if (dims != nullptr) dims[k] = vch5::ext[s][k]; if (maxdims != nullptr) maxdims[k] = vch5::ext[s][k]; }
        }
    return static_cast<int>(r);
}
inline hssize_t H5Sget_simple_extent_npoints(hid_t id) { vch5::need("HDF5: a dataspace is used while it is open", id, vch5::SPACE); return vc_int("points", -1, 1000000000); }
inline hid_t H5Tcopy(hid_t) { return vch5::acquire(vch5::TYPE); }
inline herr_t H5Tclose(hid_t id) { return vch5::release(id, vch5::TYPE); }
inline herr_t H5Tset_size(hid_t id, unsigned long) { vch5::need("HDF5: a datatype is used while it is open", id, vch5::TYPE); return vch5::status(); }
inline herr_t H5Tset_cset(hid_t id, H5T_cset_t) { vch5::need("HDF5: a datatype is used while it is open", id, vch5::TYPE); return vch5::status(); }
inline hid_t H5Acreate2(hid_t f, char const* name, hid_t t, hid_t s, hid_t, hid_t)
{
    vc_assert("HDF5: an attribute is created in an open object, with an open type and dataspace", vch5::open_any(f) && vch5::valid(t, vch5::TYPE) && vch5::valid(s, vch5::SPACE));
    vch5::last_name = name;
    return vch5::acquire(vch5::ATTR);
}
inline hid_t H5Aopen(hid_t f, char const*, hid_t) { vc_assert("HDF5: an attribute is opened in an open object", vch5::open_any(f)); return vch5::acquire(vch5::ATTR); }
inline herr_t H5Aclose(hid_t id) { return vch5::release(id, vch5::ATTR); }
inline herr_t H5Awrite(hid_t a, hid_t t, void const*) { vc_assert("HDF5: an attribute is written while it and its type are open", vch5::valid(a, vch5::ATTR) && vch5::valid(t, vch5::TYPE)); return vch5::status(); }
inline herr_t H5Aread(hid_t a, hid_t t, void*) { vc_assert("HDF5: an attribute is read while it and its type are open", vch5::valid(a, vch5::ATTR) && vch5::open_any(t)); return vch5::status(); }
inline hid_t H5Aget_type(hid_t a) { vch5::need("HDF5: an attribute is used while it is open", a, vch5::ATTR); return vch5::acquire(vch5::TYPE); }
inline hid_t H5Aget_space(hid_t a) { vch5::need("HDF5: an attribute is used while it is open", a, vch5::ATTR); return new_space(0, 0, 0, 0); }
inline hid_t H5Gopen2(hid_t f, char const*, hid_t) { vc_assert("HDF5: objects are opened in an open file or group", vch5::open_any(f)); return vch5::acquire(vch5::GROUP); }
inline herr_t H5Gclose(hid_t id) { return vch5::release(id, vch5::GROUP); }
inline hid_t H5Pcreate(hid_t) { return vch5::acquire(vch5::PLIST); }
inline herr_t H5Pclose(hid_t id) { return vch5::release(id, vch5::PLIST); }
