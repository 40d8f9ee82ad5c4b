// Reads and writes PNG files with libpng directly (independent of the code under test).
#ifndef VT_PNG_H
#define VT_PNG_H
#include <png.h>
#include <vector>
#include <string>
namespace vt {
// pix: interleaved channel values (bytes, or 16 bit values if depth is 16)
inline void write_png(const std::string& path, int w, int h, int ch, const std::vector<long>& pix, int depth = 8) {
  FILE* f = fopen(path.c_str(), "wb"); if (!f) { perror(path.c_str()); exit(3); }
  png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, 0, 0, 0); png_infop i = png_create_info_struct(p);
  png_init_io(p, f);
  int ct = ch == 1 ? PNG_COLOR_TYPE_GRAY : ch == 2 ? PNG_COLOR_TYPE_GRAY_ALPHA : ch == 3 ? PNG_COLOR_TYPE_RGB : PNG_COLOR_TYPE_RGB_ALPHA;
  png_set_IHDR(p, i, w, h, depth, ct, PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
  png_write_info(p, i);
  for (int y = 0; y < h; y++) {
    std::vector<png_byte> row;
    for (int x = 0; x < w * ch; x++) { long v = pix[(size_t)y * w * ch + x]; if (depth == 16) row.push_back(v >> 8); row.push_back(v & 255); }
    png_write_row(p, row.data());
  }
  png_write_end(p, i); png_destroy_write_struct(&p, &i); fclose(f);
}
inline std::vector<long> read_png(const std::string& path, long& w, long& h, long& ch) {
  std::vector<long> v; w = h = ch = 0;
  FILE* f = fopen(path.c_str(), "rb"); if (!f) return v;
  png_structp p = png_create_read_struct(PNG_LIBPNG_VER_STRING, 0, 0, 0); png_infop i = png_create_info_struct(p);
  png_init_io(p, f); png_read_info(p, i);
  w = png_get_image_width(p, i); h = png_get_image_height(p, i); ch = png_get_channels(p, i);
  std::vector<png_byte> row(png_get_rowbytes(p, i));
  for (int y = 0; y < h; y++) { png_read_row(p, row.data(), 0); for (int x = 0; x < w * ch; x++) v.push_back(row[x]); }
  png_destroy_read_struct(&p, &i, 0); fclose(f);
  return v;
}
// a value that should be k/255, as k
inline long byte255(double v) { double x = v * 255.0; double r = std::floor(x + 0.5); return std::fabs(x - r) < 2e-3 && std::fabs(r) < 1e8 ? (long)r : BAD; }
}
#endif
