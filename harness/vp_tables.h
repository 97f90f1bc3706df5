/* generated: true values on the stage-2 grid */
#define VP_EXP_N 65
#define VP_SQRT_N 64
static const double vp_exp_x[]={-0x1.0000000000000p+4,-0x1.f000000000000p+3,-0x1.e000000000000p+3,-0x1.d000000000000p+3,-0x1.c000000000000p+3,-0x1.b000000000000p+3,-0x1.a000000000000p+3,-0x1.9000000000000p+3,-0x1.8000000000000p+3,-0x1.7000000000000p+3,-0x1.6000000000000p+3,-0x1.5000000000000p+3,-0x1.4000000000000p+3,-0x1.3000000000000p+3,-0x1.2000000000000p+3,-0x1.1000000000000p+3,-0x1.0000000000000p+3,-0x1.e000000000000p+2,-0x1.c000000000000p+2,-0x1.a000000000000p+2,-0x1.8000000000000p+2,-0x1.6000000000000p+2,-0x1.4000000000000p+2,-0x1.2000000000000p+2,-0x1.0000000000000p+2,-0x1.c000000000000p+1,-0x1.8000000000000p+1,-0x1.4000000000000p+1,-0x1.0000000000000p+1,-0x1.8000000000000p+0,-0x1.0000000000000p+0,-0x1.0000000000000p-1,0x0.0p+0,0x1.0000000000000p-1,0x1.0000000000000p+0,0x1.8000000000000p+0,0x1.0000000000000p+1,0x1.4000000000000p+1,0x1.8000000000000p+1,0x1.c000000000000p+1,0x1.0000000000000p+2,0x1.2000000000000p+2,0x1.4000000000000p+2,0x1.6000000000000p+2,0x1.8000000000000p+2,0x1.a000000000000p+2,0x1.c000000000000p+2,0x1.e000000000000p+2,0x1.0000000000000p+3,0x1.1000000000000p+3,0x1.2000000000000p+3,0x1.3000000000000p+3,0x1.4000000000000p+3,0x1.5000000000000p+3,0x1.6000000000000p+3,0x1.7000000000000p+3,0x1.8000000000000p+3,0x1.9000000000000p+3,0x1.a000000000000p+3,0x1.b000000000000p+3,0x1.c000000000000p+3,0x1.d000000000000p+3,0x1.e000000000000p+3,0x1.f000000000000p+3,0x1.0000000000000p+4};
static const double vp_exp_y[]={0x1.e355bbaee85cbp-24,0x1.8e7138077168dp-23,0x1.4875ca227ec38p-22,0x1.0ec503d2696e8p-21,0x1.be6c6fdb01612p-21,0x1.7003974e945dfp-20,0x1.2f6053b981d98p-19,0x1.f42ed3f68e690p-19,0x1.9c54c3b43bc8bp-18,0x1.53e8d76780b04p-17,0x1.18354238f6764p-16,0x1.cdfc263f6a0bap-16,0x1.7cd79b5647c9bp-15,0x1.39f38a5498fe2p-14,0x1.02cf22526545ap-13,0x1.aab43fb3940a1p-13,0x1.5fc21041027adp-12,0x1.21f9ba40f31d5p-11,0x1.de16b9c24a98fp-11,0x1.8a1e18a954ffap-10,0x1.44e51f113d4d6p-9,0x1.0bd4a5aca7728p-8,0x1.b993fe00d5376p-8,0x1.6c0504695c417p-7,0x1.2c155b8213cf4p-6,0x1.eec1018e4ff66p-6,0x1.97db0ccceb0afp-5,0x1.50385c094f425p-4,0x1.152aaa3bf81ccp-3,0x1.c8f87724b5c1dp-3,0x1.78b56362cef38p-2,0x1.368b2fc6f960ap-1,0x1.0000000000000p+0,0x1.a61298e1e069cp+0,0x1.5bf0a8b145769p+1,0x1.1ed3fe64fc541p+2,0x1.d8e64b8d4ddaep+2,0x1.85d6fd931e0bbp+3,0x1.415e5bf6fb106p+4,0x1.08ec721396bdbp+5,0x1.b4c902e273a58p+5,0x1.68118ade1deaap+6,0x1.28d389970338fp+7,0x1.e96244f21bbf6p+7,0x1.936dc5690c08fp+8,0x1.4c92210816c89p+9,0x1.122885aaeddaap+10,0x1.c402b6eb1f6adp+10,0x1.749ea7d470c6ep+11,0x1.332c4d2b7c4a1p+12,0x1.fa7157c470f82p+12,0x1.a17dd08c11dc1p+13,0x1.5829dcf950560p+14,0x1.1bb7015e84d3bp+15,0x1.d3c4488ee4f7fp+15,0x1.819bc560f6113p+16,0x1.3de1654d37c9ap+17,0x1.060c52565ba66p+18,0x1.b00b5916ac955p+18,0x1.64290bd5cad8bp+19,0x1.259ac48bf05d7p+20,0x1.e4127437732b7p+20,0x1.8f0ccafad2a87p+21,0x1.48f609e7b6bbep+22,0x1.0f2ebd0a80020p+23};
static const double vp_tanh_y[]={-0x1.fffffffffff1cp-1,-0x1.ffffffffffd94p-1,-0x1.ffffffffff96ap-1,-0x1.fffffffffee1ap-1,-0x1.fffffffffcf58p-1,-0x1.fffffffff7bbdp-1,-0x1.ffffffffe987bp-1,-0x1.ffffffffc2eb9p-1,-0x1.ffffffff59f7cp-1,-0x1.fffffffe3cad8p-1,-0x1.fffffffb352ddp-1,-0x1.fffffff2f9279p-1,-0x1.ffffffdc96f35p-1,-0x1.ffffff9fbea41p-1,-0x1.fffffefa59d78p-1,-0x1.fffffd38c39f0p-1,-0x1.fffff872a91f8p-1,-0x1.ffffeb78a3c73p-1,-0x1.ffffc832750f2p-1,-0x1.ffff684fec9b9p-1,-0x1.fffe63abe253cp-1,-0x1.fffb9f2fc1e91p-1,-0x1.fff419668df11p-1,-0x1.ffdfa72153983p-1,-0x1.ffa81708a0b42p-1,-0x1.ff112c63a9077p-1,-0x1.fd77d111a0b00p-1,-0x1.f9258260a71c2p-1,-0x1.ed9505e1bc3d4p-1,-0x1.cf6f9786df577p-1,-0x1.85efab514f394p-1,-0x1.d9353d7568af3p-2,0x0.0p+0,0x1.d9353d7568af3p-2,0x1.85efab514f394p-1,0x1.cf6f9786df577p-1,0x1.ed9505e1bc3d4p-1,0x1.f9258260a71c2p-1,0x1.fd77d111a0b00p-1,0x1.ff112c63a9077p-1,0x1.ffa81708a0b42p-1,0x1.ffdfa72153983p-1,0x1.fff419668df11p-1,0x1.fffb9f2fc1e91p-1,0x1.fffe63abe253cp-1,0x1.ffff684fec9b9p-1,0x1.ffffc832750f2p-1,0x1.ffffeb78a3c73p-1,0x1.fffff872a91f8p-1,0x1.fffffd38c39f0p-1,0x1.fffffefa59d78p-1,0x1.ffffff9fbea41p-1,0x1.ffffffdc96f35p-1,0x1.fffffff2f9279p-1,0x1.fffffffb352ddp-1,0x1.fffffffe3cad8p-1,0x1.ffffffff59f7cp-1,0x1.ffffffffc2eb9p-1,0x1.ffffffffe987bp-1,0x1.fffffffff7bbdp-1,0x1.fffffffffcf58p-1,0x1.fffffffffee1ap-1,0x1.ffffffffff96ap-1,0x1.ffffffffffd94p-1,0x1.fffffffffff1cp-1};
static const double vp_sqrt_x[]={0x1.0000000000000p-1,0x1.0000000000000p+0,0x1.8000000000000p+0,0x1.0000000000000p+1,0x1.4000000000000p+1,0x1.8000000000000p+1,0x1.c000000000000p+1,0x1.0000000000000p+2,0x1.2000000000000p+2,0x1.4000000000000p+2,0x1.6000000000000p+2,0x1.8000000000000p+2,0x1.a000000000000p+2,0x1.c000000000000p+2,0x1.e000000000000p+2,0x1.0000000000000p+3,0x1.1000000000000p+3,0x1.2000000000000p+3,0x1.3000000000000p+3,0x1.4000000000000p+3,0x1.5000000000000p+3,0x1.6000000000000p+3,0x1.7000000000000p+3,0x1.8000000000000p+3,0x1.9000000000000p+3,0x1.a000000000000p+3,0x1.b000000000000p+3,0x1.c000000000000p+3,0x1.d000000000000p+3,0x1.e000000000000p+3,0x1.f000000000000p+3,0x1.0000000000000p+4,0x1.0800000000000p+4,0x1.1000000000000p+4,0x1.1800000000000p+4,0x1.2000000000000p+4,0x1.2800000000000p+4,0x1.3000000000000p+4,0x1.3800000000000p+4,0x1.4000000000000p+4,0x1.4800000000000p+4,0x1.5000000000000p+4,0x1.5800000000000p+4,0x1.6000000000000p+4,0x1.6800000000000p+4,0x1.7000000000000p+4,0x1.7800000000000p+4,0x1.8000000000000p+4,0x1.8800000000000p+4,0x1.9000000000000p+4,0x1.9800000000000p+4,0x1.a000000000000p+4,0x1.a800000000000p+4,0x1.b000000000000p+4,0x1.b800000000000p+4,0x1.c000000000000p+4,0x1.c800000000000p+4,0x1.d000000000000p+4,0x1.d800000000000p+4,0x1.e000000000000p+4,0x1.e800000000000p+4,0x1.f000000000000p+4,0x1.f800000000000p+4,0x1.0000000000000p+5};
static const double vp_sqrt_y[]={0x1.6a09e667f3bcdp-1,0x1.0000000000000p+0,0x1.3988e1409212ep+0,0x1.6a09e667f3bcdp+0,0x1.94c583ada5b53p+0,0x1.bb67ae8584caap+0,0x1.deeea11683f49p+0,0x1.0000000000000p+1,0x1.0f876ccdf6cd9p+1,0x1.1e3779b97f4a8p+1,0x1.2c2fc595456a7p+1,0x1.3988e1409212ep+1,0x1.465655f122ff6p+1,0x1.52a7fa9d2f8eap+1,0x1.5e8add236a58fp+1,0x1.6a09e667f3bcdp+1,0x1.752e50db3a3a2p+1,0x1.8000000000000p+1,0x1.8a85c24f70659p+1,0x1.94c583ada5b53p+1,0x1.9ec474a261264p+1,0x1.a887293fd6f34p+1,0x1.b211b1c70d023p+1,0x1.bb67ae8584caap+1,0x1.c48c6001f0ac0p+1,0x1.cd82b446159f3p+1,0x1.d64d51e0db1c6p+1,0x1.deeea11683f49p+1,0x1.e768d399dc470p+1,0x1.efbdeb14f4edap+1,0x1.f7efbeb8d4f12p+1,0x1.0000000000000p+2,0x1.03f81f636b80cp+2,0x1.07e0f66afed07p+2,0x1.0bbb307acafdbp+2,0x1.0f876ccdf6cd9p+2,0x1.13463fa37014ep+2,0x1.16f8334644df9p+2,0x1.1a9dc8f6df104p+2,0x1.1e3779b97f4a8p+2,0x1.21c5b70d9f824p+2,0x1.2548eb9151e85p+2,0x1.28c17b9337834p+2,0x1.2c2fc595456a7p+2,0x1.2f9422c23c47ep+2,0x1.32eee75770416p+2,0x1.3640630445306p+2,0x1.3988e1409212ep+2,0x1.3cc8a99af5453p+2,0x1.4000000000000p+2,0x1.432f24fb01c7ap+2,0x1.465655f122ff6p+2,0x1.4975cd5768088p+2,0x1.4c8dc2e423980p+2,0x1.4f9e6bbc4ecb3p+2,0x1.52a7fa9d2f8eap+2,0x1.55aaa002a9d5ap+2,0x1.58a68a4a8d9f3p+2,0x1.5b9be5d52a9dap+2,0x1.5e8add236a58fp+2,0x1.617398f2aaa48p+2,0x1.645640568c1c3p+2,0x1.6732f8d0e2f77p+2,0x1.6a09e667f3bcdp+2};
