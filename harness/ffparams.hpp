// generated once with openssl; fixed domain parameters
#pragma once
static const char *DSAP[][3] = {
  {"fbdb1d4d2d9bc63444e5234d4e7ee42ce75393864fa537cf37d8b1b30ecd95eb4904f92921237dd61bd3df6d0da356b2ec21370f3abb7593137df3e5cd75560a704d5b5c6e4bcb17b1966d60f6e57b12629cd0b03c1b8e0b7721f052216eeb1db5b5f8d880c81b6d58bd082ecfcbd7ae6e24c9c5d58ebb25cb5e237e7e236523", "8d2d47f774e51d8df03b9eb824f669ac0d72504b", "69200d7f669cce2cc48692be59f9e6037139c35262cae30cf360fe8e79f8b27574608a1b1ed5e525a22064629822a1d03c65bb388a5675e88175b490c733e9ba5317f382e934861c65a3dd5aaec917cb5cced9d931b57144a5e407c0829922f77624e0f11000ca34569fa127b3f078cb5e224811d9f325e5b0d83250f8114689"},
  {"a659ccbd51f59f376b62df79b9ba6b81c0e8a6415383210d353ea0915b984a4d02f607a6f441a85d90e73d6ffd22306cdfd9f7a75ee9c28caba9dcca546f84b829113aeca860d2a91fe25b27c4e362e15c3d85631614603b0693ea46bebc0ff6c95b169978ded3917555f84edb38e47c7272a8b4becf5c2f8812cd2c9551516b", "d9a4e59953e4cec4e9ef365c50a9340d33ba1b7e6c1cfca7fb87706f", "2919516dc8c3b6d9a45472eaff028652fc05430cae6129b646a187465a8e446f7cff773b92a78d97d717b9cc65912fd4237c004346a5232f4d8ce8752a28523d362606b3619b7dd2a67be76817420dac03a66499f55e3584224672f1d604e149afa179d5a950dfb75c760d277980aa3fd9843be0de290bc3e2f5b3d7d00ececa"},
  {"9de2e9066514ff31e3f4701b3453e3eb30e474f97f005261762273c3247d18781c623841eae4dce0f1f7048e015dadf96d7615f40718c166a619b8e5e7037c1303bd4ee02c3e07c88785d64c955ed3264fa358c42c035cd6cf2c2f4af4fe8883c26ab01f2eb0e9b5f40e49572327f97341a4e32277a7372278795d1df288aed455dccc903fed216e8f62700466f00d82908682cd755f9cf7ede90a04a3b6fd052c16476bff3297bb3532f28fb81654ea79a2a615e6a8220a22985b73ea1b82314b853c6bae5c752fc20add79bf4830a6a03570f068ec1e232b57d867906afb854edcab8bc51b0a14de9d10577c53f2076a203c8e8ac690d20bfaaf6277cabfef", "af66d482b8556ad8c786cffe99cff20d284042b82ebf0179da0a96792b6119d9", "9d475e10b8c54c23ed149bc8ded83275ac27160e642e588c1787686261ff5457d4750e95bb62f5d3fdd81d3aa6e5c8a9105465be37b1fb5aa2d94fae07753bd4d2a9279e8addbd4028930f3fc580b3a2f5457544281c498d22e1d775a29139f68b88eaf0345f6e5e75c2d5b533e6d4ec696bad82e81ecda7dae2fdc6e7f5da1f88605743bcd4993b2f79468b8bddb1781e7e100fc2cfc609e3810c77c5c26a04ea19613bcd3c41e186c2856e8ddb5e6d4455c24df8bf21a0355710d184e563b85a63312f47ddfc79fe8a04c9087c21958b3a1e683da74ce17f7d8126a61a4f552547a7fe2cbf9496e133efc202e1350bcd5db7ef7c595b59d74fdf7cde94b794"},
};
static const char *PRIMES[] = {
  "e5c2a7104f5a56518b5b430037818345f1314cd92b750b728a6a55f2a79eba8f",
  "d52c3e3b4129f36d4b93dbebb1800f829f8016f900b1f4093c86519b8de186b1",
  "01817c65904c9f79a18588a235d06b90f5a9973d650b348f19754d0768d38830ed",
  "0dfe8202d1d02c567c4e4e7e693065ab9d9059a55475cbafee937aa81404ffad4a0bc7cd3029",
  "e45bc0b6dbd3019849204be5886fc5e79e447c384d58ac3d3dc267e7ba0b1613c7ee34c6d5286b2fcc8ab0fa551f8555",
  "f89b5a59d67ad6e8b4023c1765824f4b92bad283a2875d47b9a04e7468507a77c63f36ab6ab5c472892950eb7f4d0089",
  "db306a5f8c67ad330d534005e0ba7a4c5978e819ba41afb9b19c2bb36676701e002e814c5774b91e9b9da50afaca63c4de3ae372f083f40d269bb1a29905e301",
  "fa6b55a2589e055c21bf42a1f0e35f7c69e963b98cef5da97e21f16077bbf80fd02f93b577475dd982d4b68785d1ff804d1c8f52de454d8791213f98b33bbdb9",
  "ea0e3518bef3af99a79eb3aec9997bdb50fe13fbb191bbc80ba3a3e7c695afbd1d6ec6250d7e8c0192887ea8c8440fa94429e3a181e2890265d7ff5f28236343",
  "c19502b709c49a956d63cd70e3939f16ca163753e7f0e287a567897a425446050ca19287e9e73242f80a3f3cc4f427ef9d5ef18a0c74443619d37d4bbaab5e69fb",
  "ebc23c019f76a9ace5da183da7a63529666cb2a363fdbaa15cdf8fe2e0c43c520846700a61f5674ea96aa55c87a0a859b6b706388b1f1d0db95e2e8c2142a825",
};
