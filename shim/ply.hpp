#pragma once
namespace ply { enum format_type { ascii_format, binary_little_endian_format, binary_big_endian_format }; }
