// Writes everything in an HDF5 file as one JSON object: the groups, and of
// every data set its path, its dimensions and its numbers.
#include "common.hh"
#include <hdf5.h>
static std::vector<std::string> groups;
static std::string sets;
static herr_t Visit(hid_t file, const char* name, const H5L_info_t* info, void*)
{
    if (info->type != H5L_TYPE_HARD) return 0;
    hid_t o = H5Oopen(file, name, H5P_DEFAULT);
    if (o < 0) return -1;
    if (H5Iget_type(o) == H5I_GROUP) groups.push_back(name);
    else if (H5Iget_type(o) == H5I_DATASET)
    {
        hid_t sp = H5Dget_space(o);
        int rank = H5Sget_simple_extent_ndims(sp);
        std::vector<hsize_t> dims(rank);
        H5Sget_simple_extent_dims(sp, dims.data(), nullptr);
        hsize_t n = 1; for (auto d : dims) n *= d;
        std::vector<double> data(n);
        if (n) H5Dread(o, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, data.data());
        J j; j.str("path", name);
        std::string ds = "["; for (auto d : dims) ds += (ds.size() > 1 ? "," : "") + std::to_string(d);
        j.raw("dims", ds + "]").rs("data", data);
        sets += (sets.empty() ? "" : ",") + j.s + "}";
        H5Sclose(sp);
    }
    H5Oclose(o);
    return 0;
}
int main(int argc, char** argv)
{
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    for (int i = 1; i < argc; i++)
    {
        groups.clear(); sets.clear();
        hid_t f = H5Fopen(argv[i], H5F_ACC_RDONLY, H5P_DEFAULT);
        std::string g = "[";
        if (f >= 0)
        {
            H5Lvisit(f, H5_INDEX_NAME, H5_ITER_NATIVE, Visit, nullptr);
            H5Fclose(f);
        }
        for (auto& x : groups) { J t; t.str("g", x); g += (g.size() > 1 ? "," : "") + t.s.substr(5); }
        std::printf("{\"open\":%s,\"groups\":%s],\"sets\":[%s]}\n", f >= 0 ? "true" : "false", g.c_str(), sets.c_str());
    }
}
