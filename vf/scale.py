"""Sizes at and around the limits of integer types, buffers and chunks: the enumerated sizes of the 'sizes' families."""
SMALL = [31, 33, 63, 65, 99, 101, 127, 128, 129, 255, 256, 257]
MEDIUM = [511, 513, 1000, 1001, 1023, 1024, 1025, 2049, 4097]
LARGE = [32767, 32768, 32769, 65535, 65536, 65537, 100001]
