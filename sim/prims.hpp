// generated by tools/gen_prims.cpp
struct PrimRow { int n; const char* hex; };
static const PrimRow PRIMS[] = {
{2,"7"},
{3,"b"},
{4,"19"},
{4,"13"},
{5,"3b"},
{5,"37"},
{5,"3d"},
{6,"67"},
{6,"6d"},
{6,"5b"},
{6,"61"},
{7,"cb"},
{7,"9d"},
{7,"d3"},
{7,"b9"},
{8,"12d"},
{8,"11d"},
{8,"1cf"},
{8,"1f5"},
{9,"373"},
{9,"313"},
{9,"3c7"},
{9,"35b"},
{10,"519"},
{10,"4f3"},
{10,"585"},
{10,"409"},
{11,"a7f"},
{11,"ce3"},
{11,"817"},
{11,"ea3"},
{12,"1053"},
{12,"130f"},
{12,"1f99"},
{12,"1e8f"},
{13,"2129"},
{13,"38e1"},
{13,"2d37"},
{13,"2823"},
{14,"650b"},
{14,"7327"},
{14,"6b03"},
{14,"5d8d"},
{15,"b6e7"},
{15,"9fad"},
{15,"a8a3"},
{15,"aed7"},
{16,"17bf5"},
{16,"11d3f"},
{16,"1f2f1"},
{16,"1f94d"},
{17,"2e44b"},
{17,"303ef"},
{17,"39811"},
{17,"335a7"},
{18,"4eeeb"},
{18,"4b65b"},
{18,"43dd3"},
{18,"49a1d"},
{19,"b8e53"},
{19,"c1737"},
{19,"9270d"},
{19,"e61fd"},
{20,"14eb2f"},
{20,"133ca9"},
{20,"1096eb"},
{20,"14dc39"},
{21,"32c0bd"},
{21,"355515"},
{21,"2c1613"},
{21,"3941cd"},
{22,"654077"},
{22,"673d4f"},
{22,"788071"},
{22,"764951"},
{23,"d3d66d"},
{23,"e4f65d"},
{23,"ccfb8d"},
{23,"c17e33"},
{24,"1617f63"},
{24,"14ea5b7"},
{24,"15b54bb"},
{24,"119ef17"},
{25,"2683155"},
{25,"2992d77"},
{25,"213cb55"},
{25,"309a8d7"},
{28,"12124ce1"},
{28,"1c633d67"},
{28,"124718c7"},
{28,"1f18262f"},
{29,"3b715f5f"},
{29,"20d6d825"},
{29,"2a946717"},
{29,"23996ff3"},
{30,"66b2aded"},
{30,"6aecc003"},
{30,"68a7db9b"},
{30,"6a800547"},
{31,"fdabbc8d"},
{31,"8117c029"},
{31,"a319dca7"},
{31,"db9eae25"},
{32,"1b82f7c39"},
{32,"15bae4863"},
{32,"18a2b90d9"},
{32,"161c1ec13"},
{33,"2b1dcad8b"},
{33,"374f6f41d"},
{33,"3092fdfe9"},
{33,"3067e98b1"},
{36,"1c52e39095"},
{36,"142dcc1813"},
{36,"1287ed3349"},
{36,"10efcd65ed"},
{40,"156a38aa045"},
{40,"1688f8d0c5f"},
{40,"1c1319ed107"},
{40,"10d0f5853f5"},
{41,"2fd7860ba35"},
{41,"3be4dc50b93"},
{41,"33d6d196891"},
{41,"35cd2e6f13d"},
{44,"161bf75ed3a7"},
{44,"12e7f6392ac9"},
{44,"1595d0d96dbf"},
{44,"1f4b59ae1873"},
{45,"21f80a994f07"},
{45,"218baeb8394b"},
{45,"3ada9ae74519"},
{45,"244a8eb4d607"},
{48,"1c3608f3dc231"},
{48,"19ae8423e1415"},
{48,"19215d10e6e2b"},
{48,"1142d11da8011"},
{51,"b585f677fa991"},
{51,"de744a5959c21"},
{51,"c461e352dc213"},
{51,"efc1670812d69"},
{52,"1c1f431317b83d"},
{52,"1a1f111be44889"},
{52,"10338bcf90fb89"},
{52,"179c3e33212c9b"},
{55,"b100f413087b09"},
{55,"bf5f125477ad47"},
{55,"bcd81825c5db25"},
{55,"8bf848ad6f7fed"},
{56,"10763ea737c1c19"},
{56,"109de4c1115068d"},
{56,"115e9f104b5ccc1"},
{56,"1cd0dfdbc680a89"},
{59,"e09594e4ec1942d"},
{59,"c8edc7b68588881"},
{59,"fd00ea429b29007"},
{59,"ba6a15e6a10d119"},
{60,"122ced675cff5ec5"},
{60,"1090abb844fe038d"},
{60,"16db7457eb258a07"},
{60,"11bf35a567659967"},
{61,"249d12206410df9f"},
{61,"3270fe3e1207317f"},
{61,"3f7fe5a56574776b"},
{61,"2ded31477793ec0d"},
{62,"5d97c08b1e7d49eb"},
{62,"4286cf12075610e1"},
{62,"70bce630a5a90883"},
{62,"673188fef91d04d9"},
{63,"ade629587cb7f1e9"},
{63,"f9d9b3e21b04dc0d"},
{63,"cb7e6ac51c7996d1"},
{63,"cd6e6e2e0d89d0d3"},
{64,"137161e93ca0671ff"},
{64,"18e68e18cc2ada2f1"},
{64,"17687fa43b28b77c9"},
{64,"18d95cfab76ce91af"},
{89,"3fcbd413ba9627337ba63db"},
{89,"2cc7fe0f307c5705a433e17"},
{89,"340772b84257ba2433151a7"},
{89,"2e156dcc488c956587fc29b"},
{107,"e69e50c701b9f8a7536be8e81d7"},
{107,"a2146f7556d34a638b6da73e909"},
{107,"816f48c4fe891ba2604a9cf5ee9"},
{107,"dd2149ebd5bfc563d65a028bb31"},
{127,"ce8a03e94b871fa04749cac7596eb711"},
{127,"9424dccec341c891e85e6f2cfc3c988f"},
{127,"9a8c7d3eb643e5320ec04103d1f10549"},
{127,"92c424a883bc729de8d10d88892472d3"},
{128,"1235dcdc5c51841f8a1515bd8a5a48501"},
{128,"131c48be749ef4b6dfba87b9ec4b26d7d"},
{128,"19959a15998a2f31003318ccd49d9c667"},
{128,"1459aa839ede4584c9f6d7bc7e1fe7905"},
{160,"1df2ae342d951fbd06202a45f53686eba6ae564fd"},
{160,"1a1ef8541c00a4047911336a9dfc9942b65ca20ad"},
{160,"1ae4f6c48cd1c85f85748cd0fb14ec0873339b239"},
{160,"10f86e0bf4709be7253046609553085482b241f9f"},
{192,"1c94d0f9ffec3d2e8492e885eb74644492828a47efcfe2f09"},
{192,"1b81269f50946222d951cd70b964b959bda60d8dcd647ebdf"},
{192,"1b81bcdbf17bfb38e987f7f9543b11df8501af0d7b300129b"},
{224,"15f12a0b1959ee2210c8f9213c2d8907eeab73730a6599fdef9c67c95"},
{224,"19bb3799f27c6ceb7ade9bddd41972128ddfad2cac69688d389347b8b"},
{224,"1cd72bdab4644b7d2bf7fe785427f979fcbcbadb8c22cb7f529e52f11"},
{256,"1a95c316b52a504fd9a5ab0c0b1ce0eea866de893b9536ee929fadb96511bad13"},
{256,"18c8a149df34c2c445517dd7d81718888ebe16e689383836bf0622014df90804d"},
{256,"1cf2a2f5ac26e8de6b407b19547c23f66c8defa480152bc4f9da61502006ebd99"},
{288,"1d36bc887bf5d942bdec04ea329610c691750f56d521682a22da6b84a2199870def8839a1"},
{288,"1df21bae5269e217adb603d7489d74e5952dca0335e252fb8f0808316b33d40001127375f"},
{288,"1b08f7ef31ea9e070e7fef1d1f4d02246556a6553912e61d19a68c147740dbbf657f2194f"},
{320,"1764b2d761ff023f85600d0e046ad3c0f095d5f4986f787de2910d14012704c48bf4fd6ab513ed3b5"},
{320,"17660f92419ad48ed4491d076c24d6f542d3056874280f0b88ff39762fee52810ec1649241aceed63"},
{320,"16d260bcde530d9719c539e9c5b513b24ac7a2df74906daacab2e95f2deade47f66041818bc50f909"},
{352,"104ade315c6956d3af386afe3f7ba7908d2f3bf921537fe1d22cd3fdf29e80849626e487b8d1ecdec471aeae9"},
{352,"14398f943305e4023c571e6eadda8a0b390a55fdab84f2d299f662abda8173641d935853eb1441105448e0e85"},
{352,"1c7bfa98fc8f4670370d2eb9c1bfd5ce443ddadaf1513e6bdfd60c7f8b4975b86ce78e1c82d52fbc6892e2c85"},
{384,"1982bb57b03f485943ad4f72ef070faf65360e98623c05b3ff0651c3086833079fe4bcabd83e05f60f8e8a7071a3a1ecf"},
{384,"18cbf4da6023099993266026aadffdec2a50ae00cbc92cf493c409e70254cda4ed8708e3f20e70791e783702ee962bda7"},
{384,"1be85ef1a7baf9b628721afb642c71ad99a3c647c163249a83972485130a9e7413a12783129514106f1df36773331c1b3"},
{416,"1091d2e0e33ab065e26fa285d1390fcba6b31f673646ed88737ebb746e62e361f21ff0825355dd0b4e3749bd9e5eac77d74f43e7b"},
{416,"193080e44cfe71898f93f8122fa385b4d10049889f86910200ae45be22a4e350b9eec1746542121b1ccf8cda2a824f779aa6f0fb5"},
{416,"1a9ab8625539eeb32a62197a5f29a410e3924a0e83d56cea67a8f347e949cd4d31b7724ffa2a59b534688d69ecc12f69e2648c699"},
{448,"167bcfc753236da49106a199bd9ff9f5e387992a81125fb65bfe2de22e92db685ec740df6e7a4a05056419e6e3bc6b74ddb33fc3d754b7715"},
{448,"1be1b743c77ef0be30bd40b37c11ba6478e5fe6affed99f53f7ef3859b68e813bcfa23c212fa3aff2bfa41a6ff78ff441b1280986cb392fc7"},
{448,"126a8df16901b1f5e610a00cfcd47a9e413c22b97033da7f9f40a45e1b56701ed12e341f66061b0e101d8769fc7828701393d1e9e93049adb"},
{480,"10eb254fa7483cf510bde8edec7553f01b202a533a164e9d1195b2ea3e6dd7f5308626c4734602c338b90e8d9d157d6893186056246aca8155fc67d7f"},
{480,"1727354a20502e3c84a3ab1273b405a2b8f5819785535f137475b31f5f6fd6ae80c81271e768cca98f608c6dd6fc1aa3c2dfcad868fb4f1011c2d03ff"},
{480,"10df6c7b5405b3c21649de59877e0388ba8af74a84aed6a0146adff969eb8ed04ca56bb8e8fe53e0cb8156020413e08755964dcd12eb4e34eedf45c3d"},
{512,"15d2d37fba2f88c50f7cdb43189766983e9e48ced82cc387bbc455d11f794b4bec3f1979f9fac5b96b7e20993a7b3a2093aa72aec805c0fab75b17f2762e57197"},
{512,"1a414988a767e2327ea65213a14fd677eb3ad6655b0ab946be4e5c39bf212f014b259e21ca6b373604304f39a0da881af8e5868e4766ae45089de831ed64ec26d"},
{512,"11521d72d8209a6cf8e57964122d6795a35da0a1a2a2b5b12727aeee31fb30aaaa8c6d56e2ac50885bc552f6b05eb39a550365de944e2bf5e84b5fbf99048305b"},
{521,"2a5dc0d8a3d7e11fefd3c34a3637881eb13c4ed757f40256a4d924c2597a2421cd14bd4b8adceaf8cae32f72787d2a6852e248270a9a1befe3ab19528c4b3bd14ad"},
{521,"35db9677e1f12c0975db5031289f0f316d4810da6bed584bb500161d303e6b01ca6a38083ed4cde1e1848c35659a4c48cb4bbede00f17b14466d2cbf816697bbdbd"},
{521,"38f64586f9e23511d6669d81db88faf3928b05d3662c4bb4f95d6433fe19407d5f2b42de0698042f08e0b9e3a74a5aaeb1eebb3791baf3ecfa0d72a8ec411e31303"},
{544,"10d6f613362b235ccc74a10e3ee60c0fd297c8f0ecaf19650b50d96a57c34e0f1fb868309d6adab54ce95cf6c0bd7dd630e89e370587c9cabbf59ee1eb0fc1490f59bd2a3"},
{544,"191ee74763f969278f4ef54fb17b4890cc33a8f38c87e7f50cd7083cf5b0ce8a47dd81c4a2ae671cc375c5fff6af962b2cbb12cb6afffb1c0b034b3d1fac577140e3455df"},
{544,"1c3f1452056c4c861f3d4bd9dd2ac85ebc6bca204a405e3e320107751e71420cbd43f82c60b79faf62f0a01c0fd725e8d2b5e9a3d388802b9bdaaac2767ee0a4ef5482185"},
{607,"b5b6eab8bb918fbb7c36d602af4b54705e5519dd857925236e40301c3502fadd3c79adacb17bbc694c22fd0659ab4b80be7c060bbb450f54e4ff32fa36350de72f934665259c3768f141a4fd"},
{607,"d12a6443ff5fc4a53ea694ebef831bd28f1aceae25c03526f1df72aa3ab74ebb6521ab1be839bc116c31867c9874e58d8dbcf88c8d05921a293c0f18e50753e95e704a03039b4f0a8505280d"},
{607,"987ec1c2833f4ac3e4c3b13153b62dbd5f29c67486002bdc412a0899170075f40a7fbb279ad95a663058b9fa42b14864487b150b7a2d1fd5e8e594362e045b334d754fdcf2501d3012e044c9"},
{640,"1a669f8094b91f7925d3a12b5d31da4ecf5870b8242f663b3d29d9d5a759a0ce94b24a0f72bfa710509456a58fb41ec1f2cc75affb866b09225f9517c1b5b8df7f470edee80ce2affa840f01468ba06ab"},
{640,"13e7c51041fca7efc541244c738776f1d77dc1905e2df2b0769706ef1149719eba4bad0b87741c2f376b957eff03051561ad078cbd21af9c376bdb2f42ce865448c22146cabc2d5d248264885871f4187"},
{640,"1d5a79e617298a61ad8b0628507ad1ccbb4bb654a09fd3fb1b8f620d8c34e13c738f2fc5329903bf89f4c7e180f558fc746b4572e5f2c594b5aa438819cfee622812ab1ceb98880167ec3bc0459115ced"},
{800,"1066b1c9e029f87a9fec52f3b79193096286aff0b7694ac2887cdf439f36896dc396f7ce542cb52a7f595b774de6b62e5423e6b9d7034c55ed292da9cb4189a4e0492d6a4335e68ce5e7b2c8661d5a91008baa23c6aea68b6848f9200e1a5de9db3ba72db"},
{800,"144bb33a879f713ad4a5c6660e8d2962e927ff42a8a2f9f7582f1e654c4c9993e2d3ba1b52a9d5b392c6bc4358d958953cfb7118cd645e064359d2dc895f89d85cf91650e41fb6f8e3587e4216ea60b4a73dba0f27fd07a36468179e567c50c98e8c3bac7"},
{800,"1477508818387826d35adf768779a53f24d190a1260ce9840b8e6ffc16e9b39aec009824af185b74b9a8d2e18e52559b965d00a620ca8ab7fab98f3d1b6d978d04422202f76d9d599dbff0ae3db3d183b6ece28325eae90daa80a4834fdf1d31c09a5b40d"},
{960,"1859692a40fa821eac1e0eaf9997c5698dc20e8cffdedd19de02d1227372c45288d564dc7169bec9df78bec46a0c9d82ae518e78aa80f3c174210aa68e884fdccb39fdc7da7952d2288560b287bb46d3bd626149f61ee36599fb0cedf7ca4d5e70cc58265504b385f5715949e90c0d8bbe39fc98dfc989f3d"},
{960,"1b6fbe1d74898c882260ae3999c5b8693ff97a83b0e8a56b4f269f79274f24119812673a1289759ef7f302aaf47084a109abfb8aaafefea9cc92515295f7a3598909a7ae2af1bff2285d24e6437134a469ba7a796f00191bd4bdb1260b30fd2f9d80d540c1da591b82e11793cb25aa30309d1a22f5d01cc0d"},
{960,"128b81571ab0dc7186b3d4cc7aed8e3b97f1e0ce09062257f170374e76c01972ab23e7bd4704c68a9756b529d4515ee68b50129991e9f698594832850c25babd757f775df30214902595f4aa7f3391bc75500c6ef57d4adcc76b8a1c92e424d7b851e7174f0ab92169aa9a3fcc54eac137326f69705e25181"},
{0,0}};
