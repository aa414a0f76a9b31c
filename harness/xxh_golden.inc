    0x518da523a6dffed5u, // 0
    0xe838845623212a8du, // 1
    0x5864d370e50c3503u, // 2
    0x6179d05e4ed99f44u, // 3
    0xdf87d51fc3bad3e4u, // 4
    0xa9cb55ff048b503eu, // 5
    0x1aa47c289d997a5u, // 6
    0xdf0806a4f0421fffu, // 7
    0xb7e32e774f82c0f1u, // 8
    0xbc382d7b39b6e008u, // 9
    0x4bb78ea3b1d832fau, // 10
    0x2c50de1f148685d6u, // 11
    0x75fdad14a5f7ad73u, // 12
    0x2f5b43bbe8bd0892u, // 13
    0xe9836875f4499be1u, // 14
    0x7e153c5dcbc8aa4fu, // 15
    0x480e2041c69683dcu, // 16
    0x39cd35689dff66acu, // 17
    0x619a6e52f43b6cb5u, // 18
    0xda8588b3c799bdcbu, // 19
    0x5521d6db97164a80u, // 20
    0x87e4ba97e1d68113u, // 21
    0x712d4daa0d2a1923u, // 22
    0xeee48f1fdf935bc5u, // 23
    0x88c20fae6b67895du, // 24
    0x419cacb124b3c1f9u, // 25
    0x32afe55654da88fdu, // 26
    0x4ec95fd2bf927c49u, // 27
    0x3cfc167e7f2f03c0u, // 28
    0x7541a7a641cc2451u, // 29
    0x7e2fafe693dd1e78u, // 30
    0x3662778cc2203c56u, // 31
    0x2b32bf0f80ab2d8cu, // 32
    0x9e194df6eea7f707u, // 33
    0x9a7b219cc90d2481u, // 34
    0x5117028ec684f06u, // 35
    0x29845768c4e0726du, // 36
    0xf1d811ab81b2823au, // 37
    0xc27fe7d5917c7e87u, // 38
    0xc0e33403567dd60du, // 39
    0x5ce4b7aec1caef13u, // 40
    0xce58a339f9f66deeu, // 41
    0xa5c2f83d74ba80f7u, // 42
    0xb431ce2952c294fu, // 43
    0x40199fd3d6a16fb0u, // 44
    0x7442cfa21b5bc7e5u, // 45
    0xc0a6f5b023f53d05u, // 46
    0x3485bb52335a5ec4u, // 47
    0xfa92e5e7184274feu, // 48
    0x7c21b118e014bde8u, // 49
    0x5d4f2d9c20a461d6u, // 50
    0x190c930633365976u, // 51
    0xe1be0aeec446c7d8u, // 52
    0x9eab0544d1b1410cu, // 53
    0x46d2b497e86be7c0u, // 54
    0x8b6e894dcdc39b5au, // 55
    0x4bf3c98792730877u, // 56
    0x258a1582a7124009u, // 57
    0xba5adec467167052u, // 58
    0x36e1b5e8cf721f19u, // 59
    0x1f1cdec024bd1c39u, // 60
    0xe373c56fdc3e6b55u, // 61
    0xa269a64aead13931u, // 62
    0xb6460d8a68204dbfu, // 63
    0xe6e66a377a4c4bbeu, // 64
    0xc7ba95591384c6d6u, // 65
    0xa8be2eaca30b624du, // 66
    0x7011f8f27ab3e24cu, // 67
    0x264586ce40acc8a1u, // 68
    0x7340a571670f02b8u, // 69
