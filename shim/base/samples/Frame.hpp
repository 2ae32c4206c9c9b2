#pragma once
#include <vector>
#include <string>
#include <map>
#include <base/Time.hpp>
namespace base { namespace samples { namespace frame {
enum frame_mode_t { MODE_UNDEFINED = 0, MODE_GRAYSCALE = 1, MODE_RGB = 2 };
enum frame_status_t { STATUS_EMPTY, STATUS_VALID, STATUS_INVALID };
struct frame_size_t { uint16_t width, height; frame_size_t():width(0),height(0){} };
struct Frame { Time time; std::vector<uint8_t> image; frame_size_t size; uint32_t data_depth; frame_mode_t frame_mode; frame_status_t frame_status;
 std::map<std::string,std::string> attrs;
 Frame():data_depth(0),frame_mode(MODE_UNDEFINED),frame_status(STATUS_EMPTY){}
 void init(uint16_t w, uint16_t h, uint32_t depth, frame_mode_t m) { size.width=w; size.height=h; data_depth=depth; frame_mode=m; image.assign(size_t(w)*h*(depth/8)*(m==MODE_RGB?3:1),0); }
 template<class T> void setAttribute(const std::string& k, const T& v) { attrs[k]=v; }
 uint16_t getWidth() const { return size.width; } uint16_t getHeight() const { return size.height; }
 uint32_t getChannelCount() const { return frame_mode==MODE_RGB?3:1; }
 uint32_t getPixelSize() const { return getChannelCount()*(data_depth/8); }
 frame_mode_t getFrameMode() const { return frame_mode; }
 uint32_t getNumberOfBytes() const { return image.size(); }
 uint32_t getDataDepth() const { return data_depth; }
 const uint8_t* getImageConstPtr() const { return image.data(); }
 };
} } }
