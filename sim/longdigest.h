/* digests of long periodic streams, computed with Python's hashlib (tools/longdigest.py) */
#define LONG_LENS 7
#define LONG_SHORT 3
static const uint64_t long_len[LONG_LENS] = { 1000003ull, 196608ull, 16777271ull, 536870911ull, 536870968ull, 537919607ull, 4294971389ull };
static const unsigned char long_digest[4][LONG_LENS][32] = {
  { { 0x69,0x3f,0xe5,0x28,0x99,0xc3,0x3b,0x8b,0x7f,0xff,0xfb,0xc3,0x58,0x0c,0x63,0x8f },
    { 0x2a,0x8a,0x82,0xd6,0x0f,0x9e,0xaf,0xf0,0x3c,0x03,0x03,0x47,0xd1,0xd1,0x8e,0xd6 },
    { 0xdf,0x44,0xa6,0xf8,0x54,0xc6,0x2e,0xd0,0x50,0xbc,0x43,0xb9,0x9c,0x24,0xf4,0xe8 },
    { 0x58,0x56,0x2b,0x38,0x86,0x20,0x65,0x42,0xb9,0xdf,0xc0,0x33,0xd1,0xc5,0x48,0x41 },
    { 0x78,0xbb,0xaf,0x1a,0xb8,0x74,0x1e,0x2b,0xa8,0x6b,0x61,0x43,0x69,0xc3,0x31,0xad },
    { 0x0e,0x29,0x22,0x28,0x08,0x41,0xe8,0xda,0xa0,0x02,0x47,0xd8,0x2a,0x91,0x3b,0x02 },
    { 0x7a,0x24,0x8a,0xc8,0x53,0xd6,0x2e,0x88,0xc3,0x67,0x8b,0xc4,0x75,0xda,0x31,0x53 } },
  { { 0x66,0xb7,0xb6,0x8f,0x46,0x26,0xa6,0xd1,0xc0,0x41,0xbd,0x65,0x51,0x72,0x9d,0xbc,0x78,0xe3,0x1a,0x4c },
    { 0x39,0x2d,0x58,0xb7,0xf3,0xb7,0x42,0x0c,0xe8,0xf9,0xbe,0x4c,0x78,0xc5,0xfa,0x1d,0x2b,0xcd,0xba,0x45 },
    { 0x06,0x9e,0x6c,0x17,0x7c,0xf5,0xc8,0x8c,0x0e,0x7e,0x83,0x17,0x7e,0x90,0xfe,0xed,0xa9,0x6f,0xdf,0xb6 },
    { 0x4c,0xa2,0x6f,0x73,0x85,0xe2,0x35,0xb5,0xcb,0x20,0xb2,0x22,0x8f,0x3d,0x39,0x44,0x57,0x13,0xa5,0xf8 },
    { 0x8c,0x61,0xe1,0xcf,0xdc,0x92,0xa4,0xed,0x63,0x66,0xa2,0x29,0xbd,0x2c,0x98,0x7b,0xcf,0xe3,0xa6,0x1c },
    { 0x05,0xec,0x50,0x58,0x84,0x60,0xa9,0x23,0xb5,0xc6,0x4f,0x95,0xd4,0xa7,0xdf,0x19,0xec,0xe6,0x20,0xe4 },
    { 0x7c,0x29,0x34,0xbd,0x43,0x2f,0x36,0xe1,0x5b,0xf8,0xf4,0x64,0x41,0x7c,0x26,0x14,0xdb,0x61,0xe2,0x25 } },
  { { 0x5c,0x1d,0x88,0x00,0x3f,0x9e,0x92,0x36,0x73,0x54,0x06,0x6d,0x00,0xe9,0x66,0x3b,0xe2,0xe5,0x7f,0x58,0x2c,0xb2,0x85,0x1c,0xa7,0xcf,0x9c,0x3d },
    { 0x2a,0x0a,0x3f,0xb7,0xc0,0xbd,0x94,0x91,0xda,0x5d,0xd3,0xe4,0x2c,0x61,0x58,0xa4,0x0c,0x66,0xdb,0x4e,0x82,0xf7,0x6c,0xe6,0x08,0x6a,0x64,0xf3 },
    { 0xb5,0x8b,0xe1,0x3e,0xfb,0x2d,0xeb,0xce,0xbf,0x8e,0x58,0x1b,0x2f,0x55,0xeb,0x9f,0x4e,0xe7,0x83,0xac,0x66,0x74,0xe5,0xa2,0xee,0x05,0x05,0x63 },
    { 0x25,0xf4,0x00,0xcb,0x6b,0x71,0x18,0xee,0x42,0x0a,0x54,0xb0,0xa1,0x31,0xf8,0xe7,0x96,0xb2,0x8a,0x1d,0x51,0x62,0x9d,0xd2,0xe5,0x0d,0x90,0xd0 },
    { 0x8b,0x50,0x2c,0xb2,0x47,0xe9,0x51,0xd9,0x2f,0x2a,0xfe,0x62,0x54,0x72,0xd5,0x83,0x0a,0x72,0x2a,0xd9,0xc8,0x50,0x6f,0xdd,0x09,0x12,0xa8,0xfa },
    { 0x5d,0x61,0x33,0x47,0x97,0xad,0x4d,0x42,0xe7,0x6c,0x9e,0x70,0x28,0x38,0x44,0x8b,0x3f,0x47,0xaf,0xbc,0x7d,0xce,0xb1,0xcd,0xbd,0xb2,0x26,0x17 },
    { 0x02,0x1b,0x29,0xf7,0x27,0x77,0x32,0xc9,0xa1,0x29,0xa2,0x43,0xfd,0xfb,0xee,0x19,0x8f,0xd7,0x69,0x8b,0xd0,0x4d,0xa1,0xe2,0xad,0xe4,0xc8,0x50 } },
  { { 0x06,0x6f,0x74,0xfb,0x34,0xce,0x28,0x21,0x1e,0x3a,0x5e,0xf3,0xa3,0x2c,0x36,0x51,0x29,0xa4,0xb1,0x8c,0x75,0x0d,0x0f,0x55,0x44,0x33,0x7a,0x68,0x33,0x4c,0x2b,0x0e },
    { 0x17,0x92,0xd6,0x84,0x36,0x53,0x5b,0x8d,0x37,0x61,0x18,0x7a,0xa7,0x21,0xec,0xab,0xb0,0xaf,0x31,0xf9,0x5d,0x96,0x57,0x02,0x2e,0x14,0x84,0x5b,0xe6,0x05,0x51,0x2e },
    { 0x99,0x31,0x8b,0xe1,0x2a,0xdc,0x7d,0xc3,0x73,0x2e,0x89,0x94,0xea,0xba,0x5e,0xd8,0xe6,0x14,0xe8,0x64,0xcb,0x64,0xdf,0xa8,0x62,0x4a,0xab,0x10,0xa6,0xf2,0x4c,0x8b },
    { 0x14,0x50,0xba,0x8c,0x99,0x39,0xdf,0x7e,0xca,0xce,0xae,0x65,0x8b,0x9c,0x0c,0xc4,0xba,0x65,0x2e,0x2e,0xc5,0x88,0x1f,0x02,0xb7,0xf2,0x2c,0x01,0x68,0x79,0xd3,0xfc },
    { 0x77,0xde,0x68,0xf7,0x1b,0xb7,0x09,0x05,0xa5,0xaa,0xa1,0x74,0x5a,0x6f,0x5a,0x83,0x45,0x1f,0x4e,0x4b,0x0d,0x4f,0xc0,0xfe,0x53,0x4c,0xad,0x4c,0x84,0xb9,0x85,0xfd },
    { 0x26,0x04,0x60,0x96,0x34,0x60,0x3b,0x2c,0x44,0x77,0xa8,0x97,0x9b,0x50,0xec,0x40,0x44,0xbf,0x4d,0x09,0xc8,0x49,0x9f,0xdf,0x99,0x02,0x8e,0x52,0x87,0xac,0x2f,0xec },
    { 0xc4,0xf4,0x7e,0xea,0x7f,0xb4,0x4c,0xcd,0xea,0x33,0x48,0x1b,0xa8,0xfb,0xd1,0x94,0xae,0x9f,0xcf,0x40,0xdc,0xa2,0xb1,0x31,0xbd,0x79,0xd2,0x87,0x19,0xf4,0xb6,0x06 } },
};
