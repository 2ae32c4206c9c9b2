// the ply library is not available: its files are never written or read
#include <envire/tools/PlyFile.hpp>
namespace envire
{
PlyFile::PlyFile(const std::string& filename) : filename_(filename), pco_(0), tmo_(0) {}
bool PlyFile::serialize(Pointcloud*, std::ostream&, bool const) { return false; }
bool PlyFile::unserialize(Pointcloud*, std::istream&) { return false; }
}
