// Doubles whose shortest text lies exactly on the edge of the interval that the
// significand arithmetic accepts (found by searching short decimals next to midpoints).
#pragma once
#include <cstdint>
namespace gen {
static const uint64_t INTERVAL_EDGES[] = {
    0x001ba22be0d0cda0, 0x005f63b0354519d2, 0x008f63b0354519d2, 0x00a871c511c613b5, 0x016f304e0946f5c6, 0x01a39a4f80692ce1,
    0x01b949098606676e, 0x02367c02a2f86292, 0x025d1650ac2ad68c, 0x027eb76325cf201a, 0x02ccfbbd2dc9651f, 0x037f4f4b7059e066,
    0x03af4f4b7059e066, 0x03bf4f4b7059e066, 0x04074893bbce0e4d, 0x0451ebaf7d7246c8, 0x04c1300545e00ddb, 0x04ca4dc9f238a90b,
    0x050f442bf165fc24, 0x054e9f8d9aae568a, 0x05848e8d86dd0acc, 0x05b9970d90c5b0ab, 0x05f432595d29714e, 0x062f22a42effbc32,
    0x0664fa759b89e306, 0x069d37f44c7fcd95, 0x06d2ccc7331257f8, 0x06e2ccc7331257f8, 0x0722ccc7331257f8, 0x0752cde2d351b319,
    0x083e9d8c2c55f47b, 0x08b0cd791ee6243a, 0x08e5e4dff2520c85, 0x091521653f421e62, 0x093ef6bbae13b2c5, 0x09a42bff5c0eb10c,
    0x0ac54f4e264a95b2, 0x0adce77c475507d3, 0x0b2d34fe39a6a0f1, 0x0bb95555a10ac89e, 0x0c01d37000646b6b, 0x0c3182ca548b7711,
    0x0c4182ca548b7711, 0x0ca32feb8fd90d9f, 0x0ccc53b86c619315, 0x0d74f41d11996a6d, 0x0da4f41d11996a6d, 0x0dc4f41d11996a6d,
    0x0e1465bfafae9d6b, 0x0e4a55d29b75dc90, 0x0eb8f9edf53d4784, 0x0ef0d375d56d4ec3, 0x0f58df40f735a9be, 0x0f78df40f735a9be,
    0x0fb32fc79cbf4d6a, 0x0fe884c994b07371, 0x101fc81cc68154d9, 0x10cbb77e2b018336, 0x10fbb77e2b018336, 0x111bb77e2b018336,
    0x115d57abb8d9f872, 0x11b5d09c081d3c65, 0x129a94be791248d9, 0x12d46551c4bd4bfa, 0x13067520ab844aef, 0x1334876d9ea2f09d,
    0x137667e3bf517043, 0x13f3c6150a10ea76, 0x143a3c243a987538, 0x147a3c243a987538, 0x14b982c7e96579c9, 0x14ed6b36e1077dff,
    0x15e2834c1b0fce23, 0x162c8a780a49aeed, 0x163c8a780a49aeed, 0x1685ffbb54977203, 0x16c22179c24464ba, 0x170463abeb2983bb,
    0x173cb0a5cf6bed7d, 0x1761fca9cbefbdf6, 0x1791fca9cbefbdf6, 0x17d207e03c6edf0c, 0x17df7273b78c25af, 0x18a558bb999d453d,
    0x19404054bb4f2156, 0x19604054bb4f2156, 0x19add241c7e421f2, 0x1a8a610b53b504bc, 0x1b2070a56b1e2690, 0x1b58ee605a727834,
    0x1bcbdb60ccaecb39, 0x1be467594664b944, 0x1c30074b876ea596, 0x1c98d77ba278da40, 0x1ccc0ac3d0aac555, 0x1cd8d77ba278da40,
    0x1d2480b27633f6b4, 0x1d7426ae45d564a1, 0x1e3dcd018e0a54e4, 0x1e4dcd018e0a54e4, 0x1e933af6a23eb5de, 0x1fbc5ef4b776718e,
    0x1fdc5ef4b776718e, 0x200c5ef4b776718e, 0x202e27770832461f, 0x207e193062a7230d, 0x20af131553d6b80b, 0x20ed12f44838e6db,
    0x2191abed98d9d1ae, 0x21b1abed98d9d1ae, 0x21db9dc1aac771b7, 0x226d33caec552cc4, 0x22a76cb30d8e4229, 0x234506a7522f8a81,
    0x235d3e2cf22aebdb, 0x2380eae48231d9d4, 0x2419410de46f8c28, 0x2485d3e9c07d3cc3, 0x24ebd66d32aef255, 0x2521d84b81e46b00,
    0x253eb1862b639255, 0x258b0e845ead8e95, 0x25ed3baa356f8d3f, 0x269451b79ae46438, 0x26b451b79ae46438, 0x2703000cc0e55d24,
    0x276a55cb2b486a21, 0x28428fe1c74c1a9f, 0x28728fe1c74c1a9f, 0x28868a07a025a4de, 0x28c7c78c63662466, 0x28f9f64c4f2f1093,
    0x29437cc4202c58b5, 0x29566663d5e618b0, 0x29b31e5cdcb1493e, 0x29e31e5cdcb1493e, 0x2a0d1ac058120fbe, 0x2a3d1ac058120fbe,
    0x2b8a42bbdc21b69e, 0x2bca42bbdc21b69e, 0x2bee1e7f0a916945, 0x2c348b0ce8553567, 0x2c5d32cac108f245, 0x2c99e1496b65d210,
    0x2cba65e924c58ed8, 0x2d3dda4ea02ec7b9, 0x2d596fff21c6e955, 0x2da0f11812deb807, 0x2dee4aa86ed66f22, 0x2e47649ccbe77c1d,
    0x2ee8029ab851f500, 0x2f1270af76e7e284, 0x2f2acb905906fe3e, 0x2f92d24728633ce9, 0x2fe50a1fafa1910f, 0x3088ac755e26e9dd,
    0x30b8ac755e26e9dd, 0x30f6733ed0260c65, 0x3186cb9aa8078eb4, 0x31ca829b3849e3b8, 0x322a2f52362fbe4d, 0x324a2f52362fbe4d,
    0x32913f800444f7a6, 0x33420047a226d457, 0x34022541932410d3, 0x3432841d9f5bc2ce, 0x3479e486787d9f12, 0x34dc6e160d3147a7,
    0x35b7790f061fb2cb, 0x35f284dbd7f56e85, 0x362a481519431b64, 0x3661fe21141286af, 0x3700159c0e51185c, 0x3719937fb0b86910,
    0x3740159c0e51185c, 0x379ca0ca9d254dc6, 0x37d24525c1a7f75d, 0x380579eb195620a8, 0x38cfd97c09e7c96f, 0x390fd97c09e7c96f,
    0x392721b5f1d37435, 0x39790a3808d2d7dd, 0x39b120c747bad827, 0x3a74b45d33d602c9, 0x3abc3b96d0eb7a9d, 0x3acc3b96d0eb7a9d,
    0x3b1c215f334bd9af, 0x3b906bc0e0ceef95, 0x3bb2f578874c3158, 0x3c30a123bca691ed, 0x3c551da2462e0c06, 0x3c80f3f72994aaf9,
    0x3ccf12f5a1fa3164, 0x3d04ffc718a8432c, 0x3d284f8c3d5d19b0, 0x3d630263e0172315, 0x3da201271a34fd8e, 0x3dd201271a34fd8e,
    0x3e0bf891c92c0891, 0x3e2d31616aad00fb, 0x3ef3ec1e30e6efd6, 0x3f5b98c7e28240b8, 0x3f6b98c7e28240b8, 0x3f7398c7e28240b8,
    0x3f7b98c7e28240b8, 0x3f8b98c7e28240b8, 0x3f9b98c7e28240b8, 0x3fb398c7e28240b8, 0x3fc798c7e28240b8, 0x44e1affbe9230e2c,
    0x4501593f734037fb, 0x455460e587af9fd5, 0x45750a17e789c98c, 0x46253a6e648a73f1, 0x465abf0f6ab2a0d3, 0x4674ac1ee722613d,
    0x4754ffeb573490d4, 0x4803cddc30848ce6, 0x481fb27c09bb6bdd, 0x484ff011948608d9, 0x48a34cc6bd462c7a, 0x48c2f179ab0a1cf0,
    0x49049b27e89d4d5e, 0x494650d046bca563, 0x497650d046bca563, 0x498650d046bca563, 0x49c7d80e5d43a340, 0x4a09830c0d64f01e,
    0x4b22e0b15439d57c, 0x4b4d45c3992b38fc, 0x4b7be620e2046a45, 0x4bb98ac850e5699a, 0x4bd72f283b5636db, 0x4c605d46c05eeaf0,
    0x4c70a4e864de652b, 0x4ccd7dc31b493685, 0x4cfd7dc31b493685, 0x4d11d5d38902ba71, 0x4d428c121a60aaf3, 0x4df7ed7d7b116941,
    0x4e73150645a96e66, 0x4e93150645a96e66, 0x4ed1ed0330c1db5e, 0x4f150098f90c2772, 0x4f4a10e702fb5f5f, 0x4f74aa2228137417,
    0x4fb36fde3ab02279, 0x5020adb8c389269d, 0x5050adb8c389269d, 0x506fc3d0f9c9f8c3, 0x509f83732a87d257, 0x51561839a3c73914,
    0x51bcbef2c5bfa154, 0x51e4103ba372bb7d, 0x522cfb038e75e71c, 0x52d24df19a0e4ec1, 0x53018e2a952fe53d, 0x539ab5102f224ee6,
    0x53bad60bd32b2d0f, 0x540db6d2ddc40e95, 0x542fd1b41027bb25, 0x54b23be97a2f8493, 0x552d4c4883d4f3af, 0x556f0f3118fb8fa3,
    0x559c14cf6db7415b, 0x55c644dee10a68ae, 0x5690e61652926caa, 0x56c0e61652926caa, 0x56ec093794479672, 0x5719406f43da4c00,
    0x57418fc3795be7da, 0x5816f837abd6dec0, 0x586646c15be4fbb0, 0x589646c15be4fbb0, 0x58c0febf00c1ca2c, 0x597014e41208308d,
    0x59d977df1d844df3, 0x59f977df1d844df3, 0x5a2977df1d844df3, 0x5a71ae601cad6de0, 0x5ab284822ea5bb60, 0x5b84bc830a51735d,
    0x5ba4bc830a51735d, 0x5bc4bc830a51735d, 0x5c159e8af26358fc, 0x5cc0bcc273e05575, 0x5cedd14eff044b03, 0x5d130b975aef299d,
    0x5d6658b0fdcfa485, 0x5d8658b0fdcfa485, 0x5dab0876497e928e, 0x5df4685cc320dbbc, 0x5e2d1b8902b1c7c2, 0x5e6f307e0828ca0e,
    0x5ea2ceebcae2cc62, 0x5f3695fe1597b731, 0x5f74f13e038a0fa5, 0x5f84f13e038a0fa5, 0x601ab985762b8979, 0x60ded05c561cfc07,
    0x61076d8e05de6793, 0x615ad1ea87a64c40, 0x6197f0739188ae0b, 0x622cfa751357e749, 0x624cfa751357e749, 0x626cfa751357e749,
    0x62afdff4ac3a65c6, 0x63041bfc14eda7e7, 0x64089ce220f304d2, 0x644374b4b88c2a3b, 0x645bff17d1bd7b78, 0x6490993084679cda,
    0x6515521a3ccbc42f, 0x652c7b2589f341b7, 0x65b501036145e09c, 0x65e2708d106aeb6b, 0x66139fb80d28c166, 0x66352c8135b220cd,
    0x6673e640228f634e, 0x66ec3414ec95d1ec, 0x6746bc6408a5f808, 0x6792fbf62e3becba, 0x67c93cad44ecaa3c, 0x692a9bf25034be7c,
    0x695a9bf25034be7c, 0x697a773539a2da74, 0x69ded895bc4dabc5, 0x6a7230ac6942c5ae, 0x6a9230ac6942c5ae, 0x6adf68bc4a7211a7,
    0x6b0302621d84dbd2, 0x6b47c74eff07e4dc, 0x6baed244db7e0d4b, 0x6cc273b1559b8bb0, 0x6cd004c9c61951e2, 0x6d30aed55acb8758,
    0x6d624ddefb36a4ba, 0x6e047374a949fb27, 0x6e294a623b7d674e, 0x6e604aecc3094f4b, 0x6f6ddec674805023, 0x6fae61b13a0fe6b9,
    0x6fc35570c7db92d3, 0x708f6a65341ff656, 0x71575d927a1e2061, 0x71785443ed8784d1, 0x71975d927a1e2061, 0x72181ee5a29a3608,
    0x7296170a7abc19f8, 0x72b8266a641f9daa, 0x72fdf45f211fa998, 0x731df45f211fa998, 0x73623a6a3e4a2309, 0x7425179ea9e9710d,
    0x746fe9faec25d0c9, 0x749fc36be993ba82, 0x74cfc36be993ba82, 0x74f5b29dcb833b18, 0x753ca2b253947f8d, 0x76020835704ee602,
    0x764bfe7b98de4fc0, 0x767688250aa67224, 0x76a111ce7c6e9488, 0x76f01fb7733971d7, 0x775eb27aea266298, 0x77e8a535354a8f44,
    0x7818a535354a8f44, 0x7866783eed02c2d7, 0x78d00904354687a3, 0x790226dc2a307b42, 0x79a09ed7d8478de4, 0x79d2e7b9e31c7ef7,
    0x79e09ed7d8478de4, 0x7a4160c06094f398, 0x7a7237bfe85900b8, 0x7ac594f73ddb9947, 0x7b06bc19439a7288, 0x7b4c2bc100125718,
    0x7b6c2bc100125718, 0x7b94714bd690202b, 0x7bec51fb091d9c00, 0x7c1f3819937a187f, 0x7c55985161496f22, 0x7cf87907c14eb6f5,
    0x7d2d44955a9ce8cf, 0x7d602b43e9775990, 0x7df3995411a0c5d7, 0x7e24e4f4b064457f, 0x7ea0eed2a6a3d35b, 0x7ed0eed2a6a3d35b,
    0x7edc9944350c0cc8,
};
}
