//! Number texts and the bits of the nearest double (computed outside the library with exact rationals).
pub const NUMBERS: &[(&str, u64)] = &[
    ("0", 0x0000000000000000),
    ("-0", 0x8000000000000000),
    ("+0", 0x0000000000000000),
    ("0.0", 0x0000000000000000),
    ("-0.0", 0x8000000000000000),
    ("1", 0x3ff0000000000000),
    ("-1", 0xbff0000000000000),
    ("+1", 0x3ff0000000000000),
    ("007", 0x401c000000000000),
    ("-007.50", 0xc01e000000000000),
    ("5.", 0x4014000000000000),
    ("-5.", 0xc014000000000000),
    (".5", 0x3fe0000000000000),
    ("-.5", 0xbfe0000000000000),
    ("+.5", 0x3fe0000000000000),
    ("0.1", 0x3fb999999999999a),
    ("-0.1", 0xbfb999999999999a),
    ("0.3", 0x3fd3333333333333),
    ("0.30000000000000004", 0x3fd3333333333334),
    ("1e5", 0x40f86a0000000000),
    ("1E5", 0x40f86a0000000000),
    ("1e+5", 0x40f86a0000000000),
    ("1e-5", 0x3ee4f8b588e368f1),
    ("1E-05", 0x3ee4f8b588e368f1),
    ("-2.5e3", 0xc0a3880000000000),
    ("+2.5E-3", 0x3f647ae147ae147b),
    ("1.e2", 0x4059000000000000),
    (".1e1", 0x3ff0000000000000),
    ("9007199254740991", 0x433fffffffffffff),
    ("9007199254740993", 0x4340000000000000),
    ("9007199254740992.9999999999999999", 0x4340000000000000),
    ("9007199254740993.0000000000000000000000001", 0x4340000000000001),
    ("179769313486231570000000000000000000000", 0x47e0e7c9eebc4449),
    ("1.7976931348623157e308", 0x7fefffffffffffff),
    ("-1.7976931348623157E308", 0xffefffffffffffff),
    ("2.2250738585072014e-308", 0x0010000000000000),
    ("2.2250738585072011e-308", 0x000fffffffffffff),
    ("5e-324", 0x0000000000000001),
    ("-4.9406564584124654e-324", 0x8000000000000001),
    ("1e-400", 0x0000000000000000),
    ("2.4703282292062327e-324", 0x0000000000000000),
    ("2.4703282292062328e-324", 0x0000000000000001),
    ("123456789012345678901234567890", 0x45f8ee90ff6c373e),
    ("0.00000000000000000000000000000000000000000001", 0x36cc8b8218854567),
    ("3.14159265358979323846264338327950288", 0x400921fb54442d18),
    ("100000000000000000000000", 0x44b52d02c7e14af6),
    ("1e23", 0x44b52d02c7e14af6),
    ("8.5e22", 0x44b1ffdbf6b2b2eb),
    ("1.00000000000000011102230246251565404", 0x3ff0000000000000),
    ("1.00000000000000011102230246251565405", 0x3ff0000000000001),
    ("1.0000000000000002220446049250313", 0x3ff0000000000001),
    ("-73.9857", 0xc0527f15b573eab3),
    ("40.7484", 0x40445fcb923a29c7),
    ("180", 0x4066800000000000),
    ("-180", 0xc066800000000000),
    ("90.000000", 0x4056800000000000),
    ("1e0", 0x3ff0000000000000),
    ("1e00", 0x3ff0000000000000),
    ("0e5", 0x0000000000000000),
    ("1e22", 0x4480f0cf064dd592),
    ("4.35", 0x4011666666666666),
    ("2.675", 0x4005666666666666),
    ("1.005", 0x3ff0147ae147ae14),
    ("0.7853981633974483", 0x3fe921fb54442d18),
    ("6755399441055744.5", 0x4338000000000000),
    ("4503599627370496.5", 0x4330000000000000),
    ("4503599627370497.5", 0x4330000000000002),
    ("-0.26018159083", 0xbfd0a6d0afe8b5eb),
    ("0.18609139e-16", 0x3c757472c9e2e88d),
    ("-8.2", 0xc020666666666666),
    ("48219935181909.37865", 0x42c5ed8a0dc62ab0),
    ("3231.948757e2", 0x4113b9eb80b78034),
    ("252760189.55597e-25", 0x3c7d2429feeb7aa4),
    ("0.710497465e9", 0x41c52caa5c800000),
    ("7.034e28", 0x45ec68fc4c143568),
    ("-12768.42684656321", 0xc0c8f036a2e87eb3),
    ("-0.7e-4", 0xbf12599ed7c6fbd2),
    ("-599528.907866661760e-20", 0xbcfb001903340f0e),
    ("0.5901", 0x3fe2e219652bd3c3),
    ("-9.01396245957", 0xc022072616667322),
    ("7741.21547280385", 0x40be3d372939c5b7),
    ("-8414852538885393363387500.0e14", 0xc803c881518e6b30),
    ("575513137353.79907511", 0x4260bfe832193992),
    ("265167612220297.2e5", 0x43f6ffe75d6f0ef4),
    ("-20018263304348395.4e28", 0xc921f3f7c578f20c),
    ("5798682828.80729022279180", 0x41f59a0e0ccceaa9),
    ("1803340187801759.0e-13", 0x40668ab04827235f),
    ("-8878384837.26167e-26", 0xbc9997177aa64deb),
    ("-4125242.0", 0xc14f791d00000000),
    ("-72326865635.51e-1", 0xc1faf1a09e38d0e5),
    ("-06589.4811311440e-3", 0xc01a5ba0f10f7d82),
    ("46288975.14026140141931", 0x41861282791f415f),
    ("-0.86492083124", 0xbfebad6e7379c207),
    ("483.478245040008838737", 0x407e37a6e44564ff),
    ("7868433532650201.462016e-15", 0x401f7946a3d5edf1),
    ("-407224704558530.43520561", 0xc2f725e63dbe5c27),
    ("-0.80141269e10", 0xc1fddaddf3400000),
];
