#pragma once
// Small file-backed raster store with the slice of GDAL's interface the code uses.
#include <string>
#include <vector>
#include <fstream>
#include <cstring>
#include <cmath>
#include <stdint.h>
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
enum GDALDataType { GDT_Unknown=0, GDT_Byte=1, GDT_UInt16=2, GDT_Int16=3, GDT_UInt32=4, GDT_Int32=5, GDT_Float32=6, GDT_Float64=7 };
enum GDALRWFlag { GF_Read=0, GF_Write=1 };
enum GDALAccess { GA_ReadOnly=0, GA_Update=1 };
enum CPLErr { CE_None=0, CE_Failure=3 };
typedef void* GDALDatasetH;
inline size_t shimGdalSize(GDALDataType t) { switch(t){ case GDT_Byte: return 1; case GDT_UInt16: case GDT_Int16: return 2; case GDT_UInt32: case GDT_Int32: case GDT_Float32: return 4; case GDT_Float64: return 8; default: return 0; } }
struct GDALRasterBand {
    GDALDataType type; int w, h; int hasNo; double no; std::vector<char> buf;
    GDALDataType GetRasterDataType() const { return type; }
    double GetNoDataValue(int* has) const { if (has) *has = hasNo; return no; }
    CPLErr SetNoDataValue(double v) { hasNo = 1; no = v; return CE_None; }
    CPLErr SetMetadataItem(const char*, const char*, const char* = 0) { return CE_None; }
    void SetDescription(const char*) {}
    // only full-raster transfers of the native type; pixel/line spacing 0 means packed
    CPLErr RasterIO(GDALRWFlag rw, int x0, int y0, int xs, int ys, void* data, int bx, int by, GDALDataType bt, long ps, long ls) {
        size_t sz = shimGdalSize(type);
        if (bt != type || x0 || y0 || xs != w || ys != h || bx != w || by != h) return CE_Failure;
        if (!ps) ps = sz;
        if (!ls) ls = ps * w;
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
            char* p = (char*)data + (long)y * ls + (long)x * ps; char* q = &buf[(size_t(y) * w + x) * sz];
            if (rw == GF_Write) memcpy(q, p, sz); else memcpy(p, q, sz);
        }
        return CE_None;
    }
};
struct GDALDataset {
    std::string path; bool write; int w, h; double gt[6]; int hasGt; std::vector<GDALRasterBand> bands;
    GDALDataset() : write(false), w(0), h(0), hasGt(0) { for (int i=0;i<6;i++) gt[i]=0; }
    int GetRasterXSize() const { return w; } int GetRasterYSize() const { return h; } int GetRasterCount() const { return bands.size(); }
    GDALRasterBand* GetRasterBand(int i) { return i >= 1 && i <= (int)bands.size() ? &bands[i-1] : NULL; }
    CPLErr GetGeoTransform(double* o) { if (!hasGt) return CE_Failure; memcpy(o, gt, sizeof(gt)); return CE_None; }
    CPLErr SetGeoTransform(double* o) { memcpy(gt, o, sizeof(gt)); hasGt = 1; return CE_None; }
    CPLErr SetProjection(const char*) { return CE_None; }
    void flush() { if (!write) return; std::ofstream f(path.c_str(), std::ios::binary);
        int n = bands.size(); f.write("SHIMTIFF", 8); f.write((char*)&w,4); f.write((char*)&h,4); f.write((char*)&n,4); f.write((char*)&hasGt,4); f.write((char*)gt,sizeof(gt));
        for (auto& b : bands) { int t=b.type; f.write((char*)&t,4); f.write((char*)&b.hasNo,4); f.write((char*)&b.no,8); f.write(b.buf.data(), b.buf.size()); } }
    static GDALDataset* make(const char* p, int w, int h, int n, GDALDataType t) { GDALDataset* d = new GDALDataset(); d->path=p; d->w=w; d->h=h;
        for (int i=0;i<n;i++) { GDALRasterBand b; b.type=t; b.w=w; b.h=h; b.hasNo=0; b.no=0; b.buf.resize(size_t(w)*h*shimGdalSize(t)); d->bands.push_back(b); } return d; }
};
struct GDALDriver { GDALDataset* Create(const char* p, int w, int h, int n, GDALDataType t, char**) { std::ofstream f(p, std::ios::binary); if (!f) return NULL; f.close(); GDALDataset* d = GDALDataset::make(p,w,h,n,t); d->write = true; return d; } };
struct GDALDriverManager { GDALDriver* GetDriverByName(const char*) { static GDALDriver d; return &d; } };
inline GDALDriverManager* GetGDALDriverManager() { static GDALDriverManager m; return &m; }
inline void GDALAllRegister() {}
inline GDALDatasetH GDALOpen(const char* p, GDALAccess) { std::ifstream f(p, std::ios::binary); char m[8]; if (!f || !f.read(m,8) || memcmp(m,"SHIMTIFF",8)) return NULL;
    GDALDataset* d = new GDALDataset(); int n; d->path=p; f.read((char*)&d->w,4); f.read((char*)&d->h,4); f.read((char*)&n,4); f.read((char*)&d->hasGt,4); f.read((char*)d->gt,sizeof(d->gt));
    for (int i=0;i<n;i++) { GDALRasterBand b; int t; f.read((char*)&t,4); b.type=(GDALDataType)t; b.w=d->w; b.h=d->h; f.read((char*)&b.hasNo,4); f.read((char*)&b.no,8); b.buf.resize(size_t(d->w)*d->h*shimGdalSize(b.type)); f.read(b.buf.data(), b.buf.size()); d->bands.push_back(b); }
    return d; }
inline void GDALClose(GDALDatasetH h) { GDALDataset* d = (GDALDataset*)h; d->flush(); delete d; }
