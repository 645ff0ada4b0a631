// generated by tools/gen_data.py: complete sets of primes dividing 2^n-1 (verified prime and complete)
struct FactorRow { int n; const char* dec; const char* hex; const char* cofhex; };
static const FactorRow FACTORS[] = {
{2,"3","3","1"},
{3,"7","7","1"},
{4,"3","3","5"},
{4,"5","5","3"},
{5,"31","1f","1"},
{6,"3","3","15"},
{6,"7","7","9"},
{7,"127","7f","1"},
{8,"3","3","55"},
{8,"5","5","33"},
{8,"17","11","f"},
{9,"7","7","49"},
{9,"73","49","7"},
{10,"3","3","155"},
{10,"11","b","5d"},
{10,"31","1f","21"},
{11,"23","17","59"},
{11,"89","59","17"},
{12,"3","3","555"},
{12,"5","5","333"},
{12,"7","7","249"},
{12,"13","d","13b"},
{13,"8191","1fff","1"},
{14,"3","3","1555"},
{14,"43","2b","17d"},
{14,"127","7f","81"},
{15,"7","7","1249"},
{15,"31","1f","421"},
{15,"151","97","d9"},
{16,"3","3","5555"},
{16,"5","5","3333"},
{16,"17","11","f0f"},
{16,"257","101","ff"},
{17,"131071","1ffff","1"},
{18,"3","3","15555"},
{18,"7","7","9249"},
{18,"19","13","35e5"},
{18,"73","49","e07"},
{19,"524287","7ffff","1"},
{20,"3","3","55555"},
{20,"5","5","33333"},
{20,"11","b","1745d"},
{20,"31","1f","8421"},
{20,"41","29","63e7"},
{21,"7","7","49249"},
{21,"127","7f","4081"},
{21,"337","151","184f"},
{22,"3","3","155555"},
{22,"23","17","2c859"},
{22,"89","59","b817"},
{22,"683","2ab","17fd"},
{23,"47","2f","2b931"},
{23,"178481","2b931","2f"},
{24,"3","3","555555"},
{24,"5","5","333333"},
{24,"7","7","249249"},
{24,"13","d","13b13b"},
{24,"17","11","f0f0f"},
{24,"241","f1","10fef"},
{25,"31","1f","108421"},
{25,"601","259","da17"},
{25,"1801","709","48c7"},
{26,"3","3","1555555"},
{26,"2731","aab","5ffd"},
{26,"8191","1fff","2001"},
{27,"7","7","1249249"},
{27,"73","49","1c0e07"},
{27,"262657","40201","1ff"},
{28,"3","3","5555555"},
{28,"5","5","3333333"},
{28,"29","1d","8d3dcb"},
{28,"43","2b","5f417d"},
{28,"113","71","243f6f"},
{28,"127","7f","204081"},
{29,"233","e9","2328a7"},
{29,"1103","44f","76d51"},
{29,"2089","829","3ebe7"},
{30,"3","3","15555555"},
{30,"7","7","9249249"},
{30,"11","b","5d1745d"},
{30,"31","1f","2108421"},
{30,"151","97","6c80d9"},
{30,"331","14b","317f9d"},
{31,"2147483647","7fffffff","1"},
{32,"3","3","55555555"},
{32,"5","5","33333333"},
{32,"17","11","f0f0f0f"},
{32,"257","101","ff00ff"},
{32,"65537","10001","ffff"},
{33,"7","7","49249249"},
{33,"23","17","1642c859"},
{33,"89","59","5c0b817"},
{33,"599479","925b7","37f9"},
{34,"3","3","155555555"},
{34,"43691","aaab","5fffd"},
{34,"131071","1ffff","20001"},
{35,"31","1f","42108421"},
{35,"71","47","1cd85689"},
{35,"127","7f","10204081"},
{35,"122921","1e029","443e7"},
{36,"3","3","555555555"},
{36,"5","5","333333333"},
{36,"7","7","249249249"},
{36,"13","d","13b13b13b"},
{36,"19","13","d79435e5"},
{36,"37","25","6eb3e453"},
{36,"73","49","381c0e07"},
{36,"109","6d","2593f69b"},
{37,"223","df","24bc44e1"},
{37,"616318177","24bc44e1","df"},
{38,"3","3","1555555555"},
{38,"174763","2aaab","17fffd"},
{38,"524287","7ffff","80001"},
{39,"7","7","1249249249"},
{39,"79","4f","19ec8e951"},
{39,"8191","1fff","4002001"},
{39,"121369","1da19","451dd7"},
{40,"3","3","5555555555"},
{40,"5","5","3333333333"},
{40,"11","b","1745d1745d"},
{40,"17","11","f0f0f0f0f"},
{40,"31","1f","842108421"},
{40,"41","29","63e7063e7"},
{40,"61681","f0f1","10fffef"},
{41,"13367","3437","9ce3e79"},
{41,"164511353","9ce3e79","3437"},
{42,"3","3","15555555555"},
{42,"7","7","9249249249"},
{42,"43","2b","17d05f417d"},
{42,"127","7f","810204081"},
{42,"337","151","309e0184f"},
{42,"5419","152b","305ffe7d"},
{43,"431","1af","4c0720ab1"},
{43,"9719","25f7","35f1d439"},
{43,"2099863","200a97","3fead9"},
{44,"3","3","55555555555"},
{44,"5","5","33333333333"},
{44,"23","17","b21642c859"},
{44,"89","59","2e05c0b817"},
{44,"397","18d","a513fd6bb"},
{44,"683","2ab","5ff4017fd"},
{44,"2113","841","1f03ff83f"},
{45,"7","7","49249249249"},
{45,"31","1f","10842108421"},
{45,"73","49","70381c0e07"},
{45,"151","97","36406c80d9"},
{45,"631","277","cfb8988b9"},
{45,"23311","5b0f","59f6cc11"},
{46,"3","3","155555555555"},
{46,"47","2f","15c9882b931"},
{46,"178481","2b931","1780002f"},
{46,"2796203","2aaaab","17ffffd"},
{47,"2351","92f","df01a2231"},
{47,"4513","11a1","742c3ed9f"},
{47,"13264529","ca6691","a1e58f"},
{48,"3","3","555555555555"},
{48,"5","5","333333333333"},
{48,"7","7","249249249249"},
{48,"13","d","13b13b13b13b"},
{48,"17","11","f0f0f0f0f0f"},
{48,"97","61","2a3a0fd5c5f"},
{48,"241","f1","10fef010fef"},
{48,"257","101","ff00ff00ff"},
{48,"673","2a1","6160ff9e9f"},
{49,"127","7f","40810204081"},
{49,"4432676798593","40810204081","7f"},
{50,"3","3","1555555555555"},
{50,"11","b","5d1745d1745d"},
{50,"31","1f","210842108421"},
{50,"251","fb","41465fdf5cd"},
{50,"601","259","1b42e00da17"},
{50,"1801","709","918e0048c7"},
{50,"4051","fd3","40b5ffdfa5"},
{51,"7","7","1249249249249"},
{51,"103","67","13e22cbce4a9"},
{51,"2143","85f","f4a6c3ac61"},
{51,"11119","2b6f","2f27066c71"},
{51,"131071","1ffff","400020001"},
{52,"3","3","5555555555555"},
{52,"5","5","3333333333333"},
{52,"53","35","4d4873ecade3"},
{52,"157","9d","1a16d3f97a4b"},
{52,"1613","64d","28a13ff5d7b"},
{52,"2731","aab","17ff4005ffd"},
{52,"8191","1fff","8004002001"},
{53,"6361","18d9","149b0651897"},
{53,"69431","10f37","1e34702979"},
{53,"20394401","13731a1","1a530d9f"},
{54,"3","3","15555555555555"},
{54,"7","7","9249249249249"},
{54,"19","13","35e50d79435e5"},
{54,"73","49","e070381c0e07"},
{54,"87211","154ab","3017fff9fd"},
{54,"262657","40201","ff80001ff"},
{55,"23","17","590b21642c859"},
{55,"31","1f","4210842108421"},
{55,"89","59","1702e05c0b817"},
{55,"881","371","2531b061a26f"},
{55,"3191","c77","a44d56672b9"},
{55,"201961","314e9","298928fca7"},
{56,"3","3","55555555555555"},
{56,"5","5","33333333333333"},
{56,"17","11","f0f0f0f0f0f0f"},
{56,"29","1d","8d3dcb08d3dcb"},
{56,"43","2b","5f417d05f417d"},
{56,"113","71","243f6f0243f6f"},
{56,"127","7f","2040810204081"},
{56,"15790321","f0f0f1","10fffffef"},
{57,"7","7","49249249249249"},
{57,"32377","7e79","40c5dc67437"},
{57,"524287","7ffff","4000080001"},
{57,"1212847","1281af","1baa748ab1"},
{58,"3","3","155555555555555"},
{58,"59","3b","115b1e5f75270d"},
{58,"233","e9","46514e02328a7"},
{58,"1103","44f","edaa20076d51"},
{58,"2089","829","7d7ce003ebe7"},
{58,"3033169","2e4851","161fffff4f"},
{59,"179951","2beef","2e9db69cff1"},
{59,"3203431780337","2e9db69cff1","2beef"},
{60,"3","3","555555555555555"},
{60,"5","5","333333333333333"},
{60,"7","7","249249249249249"},
{60,"11","b","1745d1745d1745d"},
{60,"13","d","13b13b13b13b13b"},
{60,"31","1f","84210842108421"},
{60,"41","29","63e7063e7063e7"},
{60,"61","3d","4325c53ef368eb"},
{60,"151","97","1b2036406c80d9"},
{60,"331","14b","c5fe740317f9d"},
{60,"1321","529","319c63ff398e7"},
{61,"2305843009213693951","1fffffffffffffff","1"},
{62,"3","3","1555555555555555"},
{62,"715827883","2aaaaaab","17ffffffd"},
{62,"2147483647","7fffffff","80000001"},
{63,"7","7","1249249249249249"},
{63,"73","49","1c0e070381c0e07"},
{63,"127","7f","102040810204081"},
{63,"337","151","613c0309e0184f"},
{63,"92737","16a41","5a74b54c5a3f"},
{63,"649657","9e9b9","ce990b8b377"},
{64,"3","3","5555555555555555"},
{64,"5","5","3333333333333333"},
{64,"17","11","f0f0f0f0f0f0f0f"},
{64,"257","101","ff00ff00ff00ff"},
{64,"641","281","663d80ff99c27f"},
{64,"65537","10001","ffff0000ffff"},
{64,"6700417","663d81","280fffffd7f"},
{128,"3","3","55555555555555555555555555555555"},
{128,"5","5","33333333333333333333333333333333"},
{128,"17","11","f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f"},
{128,"257","101","ff00ff00ff00ff00ff00ff00ff00ff"},
{128,"641","281","663d80ff99c27f00663d80ff99c27f"},
{128,"65537","10001","ffff0000ffff0000ffff0000ffff"},
{128,"274177","42f01","3d30f19cd100ffffc2cf0e632eff"},
{128,"6700417","663d81","280fffffd7f00000280fffffd7f"},
{128,"67280421310721","3d30f19cd101","42f00fffffffffffbd0ff"},
{160,"3","3","5555555555555555555555555555555555555555"},
{160,"5","5","3333333333333333333333333333333333333333"},
{160,"11","b","1745d1745d1745d1745d1745d1745d1745d1745d"},
{160,"17","11","f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f"},
{160,"31","1f","842108421084210842108421084210842108421"},
{160,"41","29","63e7063e7063e7063e7063e7063e7063e7063e7"},
{160,"257","101","ff00ff00ff00ff00ff00ff00ff00ff00ff00ff"},
{160,"61681","f0f1","10fffef00010fffef00010fffef00010fffef"},
{160,"65537","10001","ffff0000ffff0000ffff0000ffff0000ffff"},
{160,"414721","65401","287447fccb89ac00ffffd78bb803347653ff"},
{160,"4278255361","ff00ff01","100fffffffeff0000000100fffffffeff"},
{160,"44479210368001","28741f88ac01","654075400fffffffffff9abf8abff"},
{192,"3","3","555555555555555555555555555555555555555555555555"},
{192,"5","5","333333333333333333333333333333333333333333333333"},
{192,"7","7","249249249249249249249249249249249249249249249249"},
{192,"13","d","13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b"},
{192,"17","11","f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f"},
{192,"97","61","2a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f"},
{192,"193","c1","15390948f40feac6f6b70bf015390948f40feac6f6b70bf"},
{192,"241","f1","10fef010fef010fef010fef010fef010fef010fef010fef"},
{192,"257","101","ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff"},
{192,"641","281","663d80ff99c27f00663d80ff99c27f00663d80ff99c27f"},
{192,"673","2a1","6160ff9e9f006160ff9e9f006160ff9e9f006160ff9e9f"},
{192,"65537","10001","ffff0000ffff0000ffff0000ffff0000ffff0000ffff"},
{192,"6700417","663d81","280fffffd7f00000280fffffd7f00000280fffffd7f"},
{192,"22253377","1538f41","c100c0ffffff3eff3f000000c100c0ffffff3eff3f"},
{192,"18446744069414584321","ffffffff00000001","100000000fffffffffffffffeffffffff"},
{224,"3","3","55555555555555555555555555555555555555555555555555555555"},
{224,"5","5","33333333333333333333333333333333333333333333333333333333"},
{224,"17","11","f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f"},
{224,"29","1d","8d3dcb08d3dcb08d3dcb08d3dcb08d3dcb08d3dcb08d3dcb08d3dcb"},
{224,"43","2b","5f417d05f417d05f417d05f417d05f417d05f417d05f417d05f417d"},
{224,"113","71","243f6f0243f6f0243f6f0243f6f0243f6f0243f6f0243f6f0243f6f"},
{224,"127","7f","2040810204081020408102040810204081020408102040810204081"},
{224,"257","101","ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff"},
{224,"449","1c1","91f5bcb8bb02d9ccaf9ba70e40ff6e0a434744fd2633506458f1bf"},
{224,"2689","a81","185f33e2ad7593474e8ace3580ffe7a0cc1d528a6cb8b17531ca7f"},
{224,"5153","1421","cb7d0b46fe0fff3482f4b901f000cb7d0b46fe0fff3482f4b901f"},
{224,"65537","10001","ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff"},
{224,"15790321","f0f0f1","10fffffef0000010fffffef0000010fffffef0000010fffffef"},
{224,"183076097","ae98501","1775c34c2cb2af572f7b00ffffffe88a3cb3d34d50a8d084ff"},
{224,"54410972897","cab258ee1","143520ffffffffebcadf00000000143520ffffffffebcadf"},
{224,"358429848460993","145fd73cb5ec1","c9096c81d4ba3140ffffffffffff36f6937e2b45cebf"},
{256,"3","3","5555555555555555555555555555555555555555555555555555555555555555"},
{256,"5","5","3333333333333333333333333333333333333333333333333333333333333333"},
{256,"17","11","f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f"},
{256,"257","101","ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff"},
{256,"641","281","663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f"},
{256,"65537","10001","ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff"},
{256,"274177","42f01","3d30f19cd100ffffc2cf0e632eff00003d30f19cd100ffffc2cf0e632eff"},
{256,"6700417","663d81","280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f"},
{256,"67280421310721","3d30f19cd101","42f00fffffffffffbd0ff0000000000042f00fffffffffffbd0ff"},
{256,"59649589127497217","d3eafc3af14601","13540775b48cc32ba00fffffffffffffecabf88a4b733cd45ff"},
{256,"5704689200685129054721","13540775b48cc32ba01","d3eafc3af14600ffffffffffffffffff2c1503c50eb9ff"},
{288,"3","3","555555555555555555555555555555555555555555555555555555555555555555555555"},
{288,"5","5","333333333333333333333333333333333333333333333333333333333333333333333333"},
{288,"7","7","249249249249249249249249249249249249249249249249249249249249249249249249"},
{288,"13","d","13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b"},
{288,"17","11","f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f"},
{288,"19","13","d79435e50d79435e50d79435e50d79435e50d79435e50d79435e50d79435e50d79435e5"},
{288,"37","25","6eb3e45306eb3e45306eb3e45306eb3e45306eb3e45306eb3e45306eb3e45306eb3e453"},
{288,"73","49","381c0e070381c0e070381c0e070381c0e070381c0e070381c0e070381c0e070381c0e07"},
{288,"97","61","2a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f"},
{288,"109","6d","2593f69b02593f69b02593f69b02593f69b02593f69b02593f69b02593f69b02593f69b"},
{288,"193","c1","15390948f40feac6f6b70bf015390948f40feac6f6b70bf015390948f40feac6f6b70bf"},
{288,"241","f1","10fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef"},
{288,"257","101","ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff"},
{288,"433","1b1","975a750ff68a58af00975a750ff68a58af00975a750ff68a58af00975a750ff68a58af"},
{288,"577","241","7194a17f55a10dc0ff8e6b5e80aa5ef23f007194a17f55a10dc0ff8e6b5e80aa5ef23f"},
{288,"673","2a1","6160ff9e9f006160ff9e9f006160ff9e9f006160ff9e9f006160ff9e9f006160ff9e9f"},
{288,"1153","481","38d6ecaef5908a8be0ea769051b4f43b80ffc72913510a6f75741f15896fae4b0bc47f"},
{288,"6337","18c1","a578057e7c2eb31f8cf28c2e0da787740fff5a87fa8183d14ce0730d73d1f258788bf"},
{288,"38737","9751","1b11b0fffe4ee4f0001b11b0fffe4ee4f0001b11b0fffe4ee4f0001b11b0fffe4ee4f"},
{288,"65537","10001","ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff"},
{288,"22253377","1538f41","c100c0ffffff3eff3f000000c100c0ffffff3eff3f000000c100c0ffffff3eff3f"},
{288,"38941695937","9111b1fc1","1c3c1cea50590c7d1cea5058f040ffffffffe3c3e315afa6f382e315afa70fbf"},
{288,"278452876033","40d515b301","3f2da6a5b1350f3da6a5b134d00fffffffffc0d2595a4ecaf0c2595a4ecb2ff"},
{288,"487824887233","7194a10dc1","241000240fffffffffdbefffdbf000000000241000240fffffffffdbefffdbf"},
{320,"3","3","55555555555555555555555555555555555555555555555555555555555555555555555555555555"},
{320,"5","5","33333333333333333333333333333333333333333333333333333333333333333333333333333333"},
{320,"11","b","1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d"},
{320,"17","11","f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f"},
{320,"31","1f","8421084210842108421084210842108421084210842108421084210842108421084210842108421"},
{320,"41","29","63e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7"},
{320,"257","101","ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff"},
{320,"641","281","663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f"},
{320,"61681","f0f1","10fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef"},
{320,"65537","10001","ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff"},
{320,"414721","65401","287447fccb89ac00ffffd78bb803347653ff0000287447fccb89ac00ffffd78bb803347653ff"},
{320,"3602561","36f881","4a832c75b6cea47dba5f461cc623ce14780fffffb57cd38a49315b8245a0b9e339dc31eb87f"},
{320,"6700417","663d81","280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f"},
{320,"4278255361","ff00ff01","100fffffffeff0000000100fffffffeff0000000100fffffffeff0000000100fffffffeff"},
{320,"44479210368001","28741f88ac01","654075400fffffffffff9abf8abff00000000000654075400fffffffffff9abf8abff"},
{320,"94455684953484563055991838558081","4a832c756c4b78084e13ce14781","36f8810036f880ffffffffffffffffffffffffffc9077effc9077f"},
{352,"3","3","5555555555555555555555555555555555555555555555555555555555555555555555555555555555555555"},
{352,"5","5","3333333333333333333333333333333333333333333333333333333333333333333333333333333333333333"},
{352,"17","11","f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f"},
{352,"23","17","b21642c8590b21642c8590b21642c8590b21642c8590b21642c8590b21642c8590b21642c8590b21642c859"},
{352,"89","59","2e05c0b81702e05c0b81702e05c0b81702e05c0b81702e05c0b81702e05c0b81702e05c0b81702e05c0b817"},
{352,"257","101","ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff"},
{352,"353","161","b9a7862a0ff465879d5f00b9a7862a0ff465879d5f00b9a7862a0ff465879d5f00b9a7862a0ff465879d5f"},
{352,"397","18d","a513fd6bb00a513fd6bb00a513fd6bb00a513fd6bb00a513fd6bb00a513fd6bb00a513fd6bb00a513fd6bb"},
{352,"683","2ab","5ff4017fd005ff4017fd005ff4017fd005ff4017fd005ff4017fd005ff4017fd005ff4017fd005ff4017fd"},
{352,"2113","841","1f03ff83f001f03ff83f001f03ff83f001f03ff83f001f03ff83f001f03ff83f001f03ff83f001f03ff83f"},
{352,"65537","10001","ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff"},
{352,"229153","37f21","4936cb10d35498c4e0ffffb6c934ef2cab673b1f00004936cb10d35498c4e0ffffb6c934ef2cab673b1f"},
{352,"5304641","50f141","329a985dc9aaad2ecfde29d70c91ce8b5149ec0fffffcd6567a2365552d13021d628f36e3174aeb613f"},
{352,"119782433","723bc21","23db3d48f71ac7e0ffffffdc24c2b708e5381f00000023db3d48f71ac7e0ffffffdc24c2b708e5381f"},
{352,"2931542417","aebbc991","1770fffffffe88f00000001770fffffffe88f00000001770fffffffe88f00000001770fffffffe88f"},
{352,"43872038849","a36fa2fc1","190fd12cf1e040ffffffffe6f02ed30e1fbf00000000190fd12cf1e040ffffffffe6f02ed30e1fbf"},
{352,"275509565477848842604777623828011666349761","329a65c363e749478696a34069516539ec1","50f191f140ffffffffffffffffffffffffffffffffffaf0e6e0ebf"},
{384,"3","3","555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555"},
{384,"5","5","333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333"},
{384,"7","7","249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249"},
{384,"13","d","13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b"},
{384,"17","11","f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f"},
{384,"97","61","2a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f"},
{384,"193","c1","15390948f40feac6f6b70bf015390948f40feac6f6b70bf015390948f40feac6f6b70bf015390948f40feac6f6b70bf"},
{384,"241","f1","10fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef"},
{384,"257","101","ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff"},
{384,"641","281","663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f"},
{384,"673","2a1","6160ff9e9f006160ff9e9f006160ff9e9f006160ff9e9f006160ff9e9f006160ff9e9f006160ff9e9f006160ff9e9f"},
{384,"769","301","5538ed06533997782d463deb5c369877d80d50e508fd00ffaac712f9acc66887d2b9c214a3c9678827f2af1af702ff"},
{384,"65537","10001","ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff"},
{384,"274177","42f01","3d30f19cd100ffffc2cf0e632eff00003d30f19cd100ffffc2cf0e632eff00003d30f19cd100ffffc2cf0e632eff"},
{384,"6700417","663d81","280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f"},
{384,"22253377","1538f41","c100c0ffffff3eff3f000000c100c0ffffff3eff3f000000c100c0ffffff3eff3f000000c100c0ffffff3eff3f"},
{384,"67280421310721","3d30f19cd101","42f00fffffffffffbd0ff0000000000042f00fffffffffffbd0ff0000000000042f00fffffffffffbd0ff"},
{384,"18446744069414584321","ffffffff00000001","100000000fffffffffffffffeffffffff000000000000000100000000fffffffffffffffeffffffff"},
{384,"442499826945303593556473164314770689","5538ed0653399777d80d50e508fd01","3010000000000000300fffffffffffffffffffffffffffffcfefffffffffffffcff"},
{416,"3","3","55555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555"},
{416,"5","5","33333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333"},
{416,"17","11","f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f"},
{416,"53","35","4d4873ecade304d4873ecade304d4873ecade304d4873ecade304d4873ecade304d4873ecade304d4873ecade304d4873ecade3"},
{416,"157","9d","1a16d3f97a4b01a16d3f97a4b01a16d3f97a4b01a16d3f97a4b01a16d3f97a4b01a16d3f97a4b01a16d3f97a4b01a16d3f97a4b"},
{416,"257","101","ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff"},
{416,"1613","64d","28a13ff5d7b0028a13ff5d7b0028a13ff5d7b0028a13ff5d7b0028a13ff5d7b0028a13ff5d7b0028a13ff5d7b0028a13ff5d7b"},
{416,"2731","aab","17ff4005ffd0017ff4005ffd0017ff4005ffd0017ff4005ffd0017ff4005ffd0017ff4005ffd0017ff4005ffd0017ff4005ffd"},
{416,"8191","1fff","80040020010008004002001000800400200100080040020010008004002001000800400200100080040020010008004002001"},
{416,"65537","10001","ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff"},
{416,"858001","d1791","138dc8970ffffec723768f0000138dc8970ffffec723768f0000138dc8970ffffec723768f0000138dc8970ffffec723768f"},
{416,"928513","e2b01","1211a3f4df9b25c9fe9a6ee9742f0bc630b7a3e9282ad500ffffedee5c0b2064da36016591168bd0f439cf485c16d7d52aff"},
{416,"308761441","12675361","de90a0fffffff216f5f0000000de90a0fffffff216f5f0000000de90a0fffffff216f5f0000000de90a0fffffff216f5f"},
{416,"18558466369","4522bb941","3b3eee4e56f31a06aed5eb2c8f90e3e66ffc3fedd6c0ffffffffc4c111b1a90ce5f9512a14d3706f1c199003c012293f"},
{416,"23877647873","58f37fe01","2e0c386ebe01a2375f03c7d109528a8f6f6d98cc0200ffffffffd1f3c79141fe5dc8a0fc382ef6ad757090926733fdff"},
{416,"21316654212673","13632b9a2641","d3457b3c09a303e68cc7f769857e8265885f8e9c0fffffffffff2cba84c3f65cfc19733808967a817d9a77a07163f"},
{416,"715668470267111297","9ee90ae9337e781","19c68a0b8a135ca29439a434fab06739405880ffffffffffffffe63975f475eca35d6bc65bcb054f98c6bfa77f"},
{416,"78919881726271091143763623681","ff00ff00ff00ff00ff00ff01","100fffffffffffffffffffffffeff00000000000000000000000100fffffffffffffffffffffffeff"},
{448,"3","3","5555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555"},
{448,"5","5","3333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333"},
{448,"17","11","f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f"},
{448,"29","1d","8d3dcb08d3dcb08d3dcb08d3dcb08d3dcb08d3dcb08d3dcb08d3dcb08d3dcb08d3dcb08d3dcb08d3dcb08d3dcb08d3dcb08d3dcb08d3dcb"},
{448,"43","2b","5f417d05f417d05f417d05f417d05f417d05f417d05f417d05f417d05f417d05f417d05f417d05f417d05f417d05f417d05f417d05f417d"},
{448,"113","71","243f6f0243f6f0243f6f0243f6f0243f6f0243f6f0243f6f0243f6f0243f6f0243f6f0243f6f0243f6f0243f6f0243f6f0243f6f0243f6f"},
{448,"127","7f","204081020408102040810204081020408102040810204081020408102040810204081020408102040810204081020408102040810204081"},
{448,"257","101","ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff"},
{448,"449","1c1","91f5bcb8bb02d9ccaf9ba70e40ff6e0a434744fd2633506458f1bf0091f5bcb8bb02d9ccaf9ba70e40ff6e0a434744fd2633506458f1bf"},
{448,"641","281","663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f"},
{448,"2689","a81","185f33e2ad7593474e8ace3580ffe7a0cc1d528a6cb8b17531ca7f00185f33e2ad7593474e8ace3580ffe7a0cc1d528a6cb8b17531ca7f"},
{448,"5153","1421","cb7d0b46fe0fff3482f4b901f000cb7d0b46fe0fff3482f4b901f000cb7d0b46fe0fff3482f4b901f000cb7d0b46fe0fff3482f4b901f"},
{448,"65537","10001","ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff"},
{448,"6700417","663d81","280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f"},
{448,"15790321","f0f0f1","10fffffef0000010fffffef0000010fffffef0000010fffffef0000010fffffef0000010fffffef0000010fffffef0000010fffffef"},
{448,"183076097","ae98501","1775c34c2cb2af572f7b00ffffffe88a3cb3d34d50a8d084ff0000001775c34c2cb2af572f7b00ffffffe88a3cb3d34d50a8d084ff"},
{448,"54410972897","cab258ee1","143520ffffffffebcadf00000000143520ffffffffebcadf00000000143520ffffffffebcadf00000000143520ffffffffebcadf"},
{448,"358429848460993","145fd73cb5ec1","c9096c81d4ba3140ffffffffffff36f6937e2b45cebf000000000000c9096c81d4ba3140ffffffffffff36f6937e2b45cebf"},
{448,"167773885276849215533569","23870a612b2748b27201","734a7cac800980b68bde76ab97ff82a118e00fffffffffffffffffff8cb583537ff67f497421895468007d5ee71ff"},
{448,"37414057161322375957408148834323969","734a7cac0cbf040a7f1f72a118e01","23870a614eae53139d2848b27200ffffffffffffffffffffffffffffdc78f59eb151acec62d7b74d8dff"},
{480,"3","3","555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555"},
{480,"5","5","333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333"},
{480,"7","7","249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249"},
{480,"11","b","1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d"},
{480,"13","d","13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b"},
{480,"17","11","f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f"},
{480,"31","1f","84210842108421084210842108421084210842108421084210842108421084210842108421084210842108421084210842108421084210842108421"},
{480,"41","29","63e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7"},
{480,"61","3d","4325c53ef368eb04325c53ef368eb04325c53ef368eb04325c53ef368eb04325c53ef368eb04325c53ef368eb04325c53ef368eb04325c53ef368eb"},
{480,"97","61","2a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f"},
{480,"151","97","1b2036406c80d901b2036406c80d901b2036406c80d901b2036406c80d901b2036406c80d901b2036406c80d901b2036406c80d901b2036406c80d9"},
{480,"193","c1","15390948f40feac6f6b70bf015390948f40feac6f6b70bf015390948f40feac6f6b70bf015390948f40feac6f6b70bf015390948f40feac6f6b70bf"},
{480,"241","f1","10fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef"},
{480,"257","101","ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff"},
{480,"331","14b","c5fe740317f9d00c5fe740317f9d00c5fe740317f9d00c5fe740317f9d00c5fe740317f9d00c5fe740317f9d00c5fe740317f9d00c5fe740317f9d"},
{480,"673","2a1","6160ff9e9f006160ff9e9f006160ff9e9f006160ff9e9f006160ff9e9f006160ff9e9f006160ff9e9f006160ff9e9f006160ff9e9f006160ff9e9f"},
{480,"1321","529","319c63ff398e700319c63ff398e700319c63ff398e700319c63ff398e700319c63ff398e700319c63ff398e700319c63ff398e700319c63ff398e7"},
{480,"23041","5a01","2d8256bac5093040e2d5a84aee19cc836aa0f2d57ac8975f077a3a600fffd27da9453af6cfbf1d2a57b511e6337c955f0d2a853768a0f885c59ff"},
{480,"61681","f0f1","10fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef"},
{480,"65537","10001","ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff"},
{480,"414721","65401","287447fccb89ac00ffffd78bb803347653ff0000287447fccb89ac00ffffd78bb803347653ff0000287447fccb89ac00ffffd78bb803347653ff"},
{480,"22253377","1538f41","c100c0ffffff3eff3f000000c100c0ffffff3eff3f000000c100c0ffffff3eff3f000000c100c0ffffff3eff3f000000c100c0ffffff3eff3f"},
{480,"394783681","1787ebc1","ae11956d62f221956d62440fffffff51ee6a929d0dde6a929dbbf0000000ae11956d62f221956d62440fffffff51ee6a929d0dde6a929dbbf"},
{480,"4278255361","ff00ff01","100fffffffeff0000000100fffffffeff0000000100fffffffeff0000000100fffffffeff0000000100fffffffeff0000000100fffffffeff"},
{480,"4562284561","10feef011","f1000f0ffffffff0efff0f00000000f1000f0ffffffff0efff0f00000000f1000f0ffffffff0efff0f00000000f1000f0ffffffff0efff0f"},
{480,"46908728641","aebfa6541","17707b5d2ad8707b5d2ac0ffffffffe88f84a2d5278f84a2d53f0000000017707b5d2ad8707b5d2ac0ffffffffe88f84a2d5278f84a2d53f"},
{480,"44479210368001","28741f88ac01","654075400fffffffffff9abf8abff00000000000654075400fffffffffff9abf8abff00000000000654075400fffffffffff9abf8abff"},
{480,"14768784307009061644318236958041601","2d82843d1bc3c7c78ed941da4a601","5a00a5ff5a01000000005a00a5ff5a00ffffffffffffffffffffffffffffa5ff5a00a5feffffffffa5ff5a00a5ff"},
{512,"3","3","55555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555"},
{512,"5","5","33333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333"},
{512,"17","11","f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f"},
{512,"257","101","ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff"},
{512,"641","281","663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f"},
{512,"65537","10001","ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff"},
{512,"274177","42f01","3d30f19cd100ffffc2cf0e632eff00003d30f19cd100ffffc2cf0e632eff00003d30f19cd100ffffc2cf0e632eff00003d30f19cd100ffffc2cf0e632eff"},
{512,"6700417","663d81","280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f"},
{512,"67280421310721","3d30f19cd101","42f00fffffffffffbd0ff0000000000042f00fffffffffffbd0ff0000000000042f00fffffffffffbd0ff0000000000042f00fffffffffffbd0ff"},
{512,"1238926361552897","466cc05aee801","3a294c585a8f5c7073e36ee3637cab2586d049baa0ba2c911800ffffffffffffc5d6b3a7a570a38f8c1c911c9c8354da792fb6455f45d36ee7ff"},
{512,"59649589127497217","d3eafc3af14601","13540775b48cc32ba00fffffffffffffecabf88a4b733cd45ff000000000000013540775b48cc32ba00fffffffffffffecabf88a4b733cd45ff"},
{512,"5704689200685129054721","13540775b48cc32ba01","d3eafc3af14600ffffffffffffffffff2c1503c50eb9ff000000000000000000d3eafc3af14600ffffffffffffffffff2c1503c50eb9ff"},
{512,"93461639715357977769163558199606896584051237541638188580280321","3a294c585a8f5c7073e36ee3637cab2586d049baa0ba2c911801","466cc05aee800fffffffffffffffffffffffffffffffffffffffffffffffffffb9933fa5117ff"},
{544,"3","3","5555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555"},
{544,"5","5","3333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333"},
{544,"17","11","f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f"},
{544,"137","89","1de5d6e3f8868a4701de5d6e3f8868a4701de5d6e3f8868a4701de5d6e3f8868a4701de5d6e3f8868a4701de5d6e3f8868a4701de5d6e3f8868a4701de5d6e3f8868a47"},
{544,"257","101","ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff"},
{544,"953","3b9","44c4a23feeced770044c4a23feeced770044c4a23feeced770044c4a23feeced770044c4a23feeced770044c4a23feeced770044c4a23feeced770044c4a23feeced77"},
{544,"5441","1541","c0b7af12ddfb93c8db7127d9fbc3f6c735df58e0b62da37fd5d7d1b3df70f7ac0fff3f4850ed22046c37248ed826043c0938ca20a71f49d25c802a282e4c208f0853f"},
{544,"26317","66cd","27d813fff609fb00027d813fff609fb00027d813fff609fb00027d813fff609fb00027d813fff609fb00027d813fff609fb00027d813fff609fb00027d813fff609fb"},
{544,"43691","aaab","17fff40005fffd00017fff40005fffd00017fff40005fffd00017fff40005fffd00017fff40005fffd00017fff40005fffd00017fff40005fffd00017fff40005fffd"},
{544,"65537","10001","ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff"},
{544,"131071","1ffff","800040002000100008000400020001000080004000200010000800040002000100008000400020001000080004000200010000800040002000100008000400020001"},
{544,"354689","56981","2f4d1b914d680ffffd0b2e46eb297f00002f4d1b914d680ffffd0b2e46eb297f00002f4d1b914d680ffffd0b2e46eb297f00002f4d1b914d680ffffd0b2e46eb297f"},
{544,"383521","5da21","2bbec7aca5e51a91878f78656c29e0ffffd44138535a1ae56e7870879a93d61f00002bbec7aca5e51a91878f78656c29e0ffffd44138535a1ae56e7870879a93d61f"},
{544,"2368179743873","22762832c81","76db6ae85dba6f70c7191380ffffffffff89249517a245908f38e6ec7f000000000076db6ae85dba6f70c7191380ffffffffff89249517a245908f38e6ec7f"},
{544,"2879347902817","29e66824961","61c1aa0ffffffffff9e3e55f000000000061c1aa0ffffffffff9e3e55f000000000061c1aa0ffffffffff9e3e55f000000000061c1aa0ffffffffff9e3e55f"},
{544,"373200722470799764577","143b334fc8f7296c61","ca75844cc98ea37a0fffffffffffffffff358a7bb336715c85f00000000000000000ca75844cc98ea37a0fffffffffffffffff358a7bb336715c85f"},
{544,"335631827046798245410603730138717057","40a3ed3b00dcc72d60f09415d25b81","3f5db27c07ed607235f19e0833007754c01e480fffffffffffffffffffffffffffffc0a24d83f8129f8dca0e61f7ccff88ab3fe1b7f"},
{544,"63406006407727721042109834220642811713","2fb38d79c7ad6a039b2a8b584fa0bf41","55de172ef2267729fdea4b4bd074e9cabd0c0fffffffffffffffffffffffffffffffaa21e8d10dd988d60215b4b42f8b163542f3f"},
{640,"3","3","5555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555"},
{640,"5","5","3333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333"},
{640,"11","b","1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d"},
{640,"17","11","f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f"},
{640,"31","1f","842108421084210842108421084210842108421084210842108421084210842108421084210842108421084210842108421084210842108421084210842108421084210842108421084210842108421"},
{640,"41","29","63e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7"},
{640,"257","101","ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff"},
{640,"641","281","663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f"},
{640,"61681","f0f1","10fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef"},
{640,"65537","10001","ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff"},
{640,"274177","42f01","3d30f19cd100ffffc2cf0e632eff00003d30f19cd100ffffc2cf0e632eff00003d30f19cd100ffffc2cf0e632eff00003d30f19cd100ffffc2cf0e632eff00003d30f19cd100ffffc2cf0e632eff"},
{640,"286721","46001","3a839ada9ac6b80d17c27e39f1c6deadf8fcce672147835d5e510f036a485cbc429323fba000ffffc57c6525653947f2e83d81c60e39215207033198deb87ca2a1aef0fc95b7a343bd6cdc045fff"},
{640,"414721","65401","287447fccb89ac00ffffd78bb803347653ff0000287447fccb89ac00ffffd78bb803347653ff0000287447fccb89ac00ffffd78bb803347653ff0000287447fccb89ac00ffffd78bb803347653ff"},
{640,"3602561","36f881","4a832c75b6cea47dba5f461cc623ce14780fffffb57cd38a49315b8245a0b9e339dc31eb87f000004a832c75b6cea47dba5f461cc623ce14780fffffb57cd38a49315b8245a0b9e339dc31eb87f"},
{640,"6700417","663d81","280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f"},
{640,"446960641","1aa41401","99bf9629af6a289d8e8bf22b097c36534436f7754810c68bf3d95a33fdfeb8d5a46ebec00fffffff664069d65095d76271740dd4f683c9acbbc9088ab7ef39740c26a5cc0201472a5b91413ff"},
{640,"4278255361","ff00ff01","100fffffffeff0000000100fffffffeff0000000100fffffffeff0000000100fffffffeff0000000100fffffffeff0000000100fffffffeff0000000100fffffffeff0000000100fffffffeff"},
{640,"96645260801","168081a601","b60747d5d6b1e7ca8887e8da5b0ac884df1c34b16f58df58fec133bceafffe9df225a00fffffffff49f8b82a294e183577781725a4f5377b20e3cb4e90a720a7013ecc43150001620dda5ff"},
{640,"44479210368001","28741f88ac01","654075400fffffffffff9abf8abff00000000000654075400fffffffffff9abf8abff00000000000654075400fffffffffff9abf8abff00000000000654075400fffffffffff9abf8abff"},
{640,"67280421310721","3d30f19cd101","42f00fffffffffffbd0ff0000000000042f00fffffffffffbd0ff0000000000042f00fffffffffffbd0ff0000000000042f00fffffffffffbd0ff0000000000042f00fffffffffffbd0ff"},
{640,"3442404051886487041","2fc5e03f1e0f3601","55bd27f2f79753241f92fdbb3009b5482a48513e8b07aec470727b7652954ca00fffffffffffffffaa42d80d0868acdbe06d0244cff64ab7d5b7aec174f8513b8f8d8489ad6ab35ff"},
{640,"94455684953484563055991838558081","4a832c756c4b78084e13ce14781","36f8810036f880ffffffffffffffffffffffffffc9077effc9077f0000000000000000000000000036f8810036f880ffffffffffffffffffffffffffc9077effc9077f"},
{640,"2715862005931406599419575483412481","85e6ff6dad038c57497fc192b001","1e96e6ca8ce8dad57b919bb0d0d4b24c31fac4e643ebd776d5000fffffffffffffffffffffffffffe16919357317252a846e644f2f2b4db3ce053b19bc1428892afff"},
{800,"3","3","55555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555"},
{800,"5","5","33333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333"},
{800,"11","b","1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d"},
{800,"17","11","f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f"},
{800,"31","1f","8421084210842108421084210842108421084210842108421084210842108421084210842108421084210842108421084210842108421084210842108421084210842108421084210842108421084210842108421084210842108421084210842108421"},
{800,"41","29","63e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7"},
{800,"101","65","288df0cac5b3f5dc83cd4e930288df0cac5b3f5dc83cd4e930288df0cac5b3f5dc83cd4e930288df0cac5b3f5dc83cd4e930288df0cac5b3f5dc83cd4e930288df0cac5b3f5dc83cd4e930288df0cac5b3f5dc83cd4e930288df0cac5b3f5dc83cd4e93"},
{800,"251","fb","105197f7d734041465fdf5cd0105197f7d734041465fdf5cd0105197f7d734041465fdf5cd0105197f7d734041465fdf5cd0105197f7d734041465fdf5cd0105197f7d734041465fdf5cd0105197f7d734041465fdf5cd0105197f7d734041465fdf5cd"},
{800,"257","101","ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff"},
{800,"401","191","a36e71a2cb033128382df70ff5c918e5d34fcced7c7d208f00a36e71a2cb033128382df70ff5c918e5d34fcced7c7d208f00a36e71a2cb033128382df70ff5c918e5d34fcced7c7d208f00a36e71a2cb033128382df70ff5c918e5d34fcced7c7d208f"},
{800,"601","259","6d0b803685c01b42e00da17006d0b803685c01b42e00da17006d0b803685c01b42e00da17006d0b803685c01b42e00da17006d0b803685c01b42e00da17006d0b803685c01b42e00da17006d0b803685c01b42e00da17006d0b803685c01b42e00da17"},
{800,"1601","641","28ef35e2e5efb0b08798627f99a9f948c128c646ad0309c0ffd710ca1d1a104f4f78679d80665606b73ed739b952fcf63f0028ef35e2e5efb0b08798627f99a9f948c128c646ad0309c0ffd710ca1d1a104f4f78679d80665606b73ed739b952fcf63f"},
{800,"1801","709","2463801231c00918e0048c7002463801231c00918e0048c7002463801231c00918e0048c7002463801231c00918e0048c7002463801231c00918e0048c7002463801231c00918e0048c7002463801231c00918e0048c7002463801231c00918e0048c7"},
{800,"4051","fd3","102d7ff7e940040b5ffdfa500102d7ff7e940040b5ffdfa500102d7ff7e940040b5ffdfa500102d7ff7e940040b5ffdfa500102d7ff7e940040b5ffdfa500102d7ff7e940040b5ffdfa500102d7ff7e940040b5ffdfa500102d7ff7e940040b5ffdfa5"},
{800,"8101","1fa5","817016c0b3ffdfa3fa4fd3000817016c0b3ffdfa3fa4fd3000817016c0b3ffdfa3fa4fd3000817016c0b3ffdfa3fa4fd3000817016c0b3ffdfa3fa4fd3000817016c0b3ffdfa3fa4fd3000817016c0b3ffdfa3fa4fd3000817016c0b3ffdfa3fa4fd3"},
{800,"25601","6401","28f559b4dce94f963e7f600199958110a11d1bde70f9c00fffd70aa64b2316b069c1809ffe666a7eef5ee2e4218f063ff00028f559b4dce94f963e7f600199958110a11d1bde70f9c00fffd70aa64b2316b069c1809ffe666a7eef5ee2e4218f063ff"},
{800,"61681","f0f1","10fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef"},
{800,"65537","10001","ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff"},
{800,"268501","418d5","3e7c181f3ffff060f9f8300003e7c181f3ffff060f9f8300003e7c181f3ffff060f9f8300003e7c181f3ffff060f9f8300003e7c181f3ffff060f9f8300003e7c181f3ffff060f9f8300003e7c181f3ffff060f9f8300003e7c181f3ffff060f9f83"},
{800,"340801","53341","313a910bf538e18695cc0ffffcec56ef40ac71e796a33f0000313a910bf538e18695cc0ffffcec56ef40ac71e796a33f0000313a910bf538e18695cc0ffffcec56ef40ac71e796a33f0000313a910bf538e18695cc0ffffcec56ef40ac71e796a33f"},
{800,"414721","65401","287447fccb89ac00ffffd78bb803347653ff0000287447fccb89ac00ffffd78bb803347653ff0000287447fccb89ac00ffffd78bb803347653ff0000287447fccb89ac00ffffd78bb803347653ff0000287447fccb89ac00ffffd78bb803347653ff"},
{800,"2787601","2a8911","604bd57839cfb6dd87f0fffff9fb42a87c6304922780f00000604bd57839cfb6dd87f0fffff9fb42a87c6304922780f00000604bd57839cfb6dd87f0fffff9fb42a87c6304922780f00000604bd57839cfb6dd87f0fffff9fb42a87c6304922780f"},
{800,"82471201","4ea6921","3414114f055d1f90b261eb6a3073e11d3fb110845ae0ffffffcbebeeb0faa2e06f4d9e1495cf8c1ee2c04eef7ba51f0000003414114f055d1f90b261eb6a3073e11d3fb110845ae0ffffffcbebeeb0faa2e06f4d9e1495cf8c1ee2c04eef7ba51f"},
{800,"3173389601","bd261521","15a7a866355ecbaee0fffffffea585799caa134511f000000015a7a866355ecbaee0fffffffea585799caa134511f000000015a7a866355ecbaee0fffffffea585799caa134511f000000015a7a866355ecbaee0fffffffea585799caa134511f"},
{800,"4278255361","ff00ff01","100fffffffeff0000000100fffffffeff0000000100fffffffeff0000000100fffffffeff0000000100fffffffeff0000000100fffffffeff0000000100fffffffeff0000000100fffffffeff0000000100fffffffeff0000000100fffffffeff"},
{800,"44479210368001","28741f88ac01","654075400fffffffffff9abf8abff00000000000654075400fffffffffff9abf8abff00000000000654075400fffffffffff9abf8abff00000000000654075400fffffffffff9abf8abff00000000000654075400fffffffffff9abf8abff"},
{800,"3399426377632056001","2f2d30478eda02c1","56d2a6a884219cfa58f3d05fb07229c8957dd618cc1ad38508f289f966eb6b61d9bb634b9175e9c618d40fffffffffffffffa92d59577bde6305a70c2fa04f8dd6376a8229e733e52c7af70d76069914949e26449cb46e8a1639e72bf"},
{800,"4850484222084371979240001","4032146cc9aeb724d0241","3fce12a494c77e863b8040808c688c006fee63acb30a0e633316bf3c35edb257949f3bddcdd40dc0ffffffffffffffffffffc031ed5b6b388179c47fbf7f739773ff90119c534cf5f19ccce940c3ca124da86b60c422322bf23f"},
{800,"432363203127002885506543172618401","155130db353e660c682acb3e88a1","c0254f89d676354f89d5b60fffffffffffffffffffffffffff3fdab0762989cab0762a49f000000000000000000000000000c0254f89d676354f89d5b60fffffffffffffffffffffffffff3fdab0762989cab0762a49f"},
{800,"129541188208935646963818844716591986208974410651257601","15a3bad8353ea6ef1dc4073383a180e71f747e08bcb01","bd486a8e5b109fd2be7db4d9e9cf1a7dd4d3be7cf7917f40bf6d3500ffffffffffffffffffffffffffffffffffffffffffff42b79571a4ef602d41824b261630e5822b2c4183086e80bf4092caff"},
{960,"3","3","555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555"},
{960,"5","5","333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333333"},
{960,"7","7","249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249249"},
{960,"11","b","1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d1745d"},
{960,"13","d","13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b13b"},
{960,"17","11","f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f"},
{960,"31","1f","84210842108421084210842108421084210842108421084210842108421084210842108421084210842108421084210842108421084210842108421084210842108421084210842108421084210842108421084210842108421084210842108421084210842108421084210842108421084210842108421"},
{960,"41","29","63e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7063e7"},
{960,"61","3d","4325c53ef368eb04325c53ef368eb04325c53ef368eb04325c53ef368eb04325c53ef368eb04325c53ef368eb04325c53ef368eb04325c53ef368eb04325c53ef368eb04325c53ef368eb04325c53ef368eb04325c53ef368eb04325c53ef368eb04325c53ef368eb04325c53ef368eb04325c53ef368eb"},
{960,"97","61","2a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f02a3a0fd5c5f"},
{960,"151","97","1b2036406c80d901b2036406c80d901b2036406c80d901b2036406c80d901b2036406c80d901b2036406c80d901b2036406c80d901b2036406c80d901b2036406c80d901b2036406c80d901b2036406c80d901b2036406c80d901b2036406c80d901b2036406c80d901b2036406c80d901b2036406c80d9"},
{960,"193","c1","15390948f40feac6f6b70bf015390948f40feac6f6b70bf015390948f40feac6f6b70bf015390948f40feac6f6b70bf015390948f40feac6f6b70bf015390948f40feac6f6b70bf015390948f40feac6f6b70bf015390948f40feac6f6b70bf015390948f40feac6f6b70bf015390948f40feac6f6b70bf"},
{960,"241","f1","10fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef010fef"},
{960,"257","101","ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff"},
{960,"331","14b","c5fe740317f9d00c5fe740317f9d00c5fe740317f9d00c5fe740317f9d00c5fe740317f9d00c5fe740317f9d00c5fe740317f9d00c5fe740317f9d00c5fe740317f9d00c5fe740317f9d00c5fe740317f9d00c5fe740317f9d00c5fe740317f9d00c5fe740317f9d00c5fe740317f9d00c5fe740317f9d"},
{960,"641","281","663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f00663d80ff99c27f"},
{960,"673","2a1","6160ff9e9f006160ff9e9f006160ff9e9f006160ff9e9f006160ff9e9f006160ff9e9f006160ff9e9f006160ff9e9f006160ff9e9f006160ff9e9f006160ff9e9f006160ff9e9f006160ff9e9f006160ff9e9f006160ff9e9f006160ff9e9f006160ff9e9f006160ff9e9f006160ff9e9f006160ff9e9f"},
{960,"1321","529","319c63ff398e700319c63ff398e700319c63ff398e700319c63ff398e700319c63ff398e700319c63ff398e700319c63ff398e700319c63ff398e700319c63ff398e700319c63ff398e700319c63ff398e700319c63ff398e700319c63ff398e700319c63ff398e700319c63ff398e700319c63ff398e7"},
{960,"23041","5a01","2d8256bac5093040e2d5a84aee19cc836aa0f2d57ac8975f077a3a600fffd27da9453af6cfbf1d2a57b511e6337c955f0d2a853768a0f885c59ff0002d8256bac5093040e2d5a84aee19cc836aa0f2d57ac8975f077a3a600fffd27da9453af6cfbf1d2a57b511e6337c955f0d2a853768a0f885c59ff"},
{960,"26881","6901","2702110c073321a578542ff5ca7589da1d9e31b181f772ac033cebea3f98fe8afc3cfcfb270e41b15af5619ffc09ca44c744ce9531c7732109700fffd8fdeef3f8ccde5a87abd00a358a7625e261ce4e7e088d53fcc31415c067017503c30304d8f1be4ea50a9e6003f635bb38bb316ace388cdef68ff"},
{960,"61681","f0f1","10fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef00010fffef"},
{960,"65537","10001","ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff0000ffff"},
{960,"414721","65401","287447fccb89ac00ffffd78bb803347653ff0000287447fccb89ac00ffffd78bb803347653ff0000287447fccb89ac00ffffd78bb803347653ff0000287447fccb89ac00ffffd78bb803347653ff0000287447fccb89ac00ffffd78bb803347653ff0000287447fccb89ac00ffffd78bb803347653ff"},
{960,"3602561","36f881","4a832c75b6cea47dba5f461cc623ce14780fffffb57cd38a49315b8245a0b9e339dc31eb87f000004a832c75b6cea47dba5f461cc623ce14780fffffb57cd38a49315b8245a0b9e339dc31eb87f000004a832c75b6cea47dba5f461cc623ce14780fffffb57cd38a49315b8245a0b9e339dc31eb87f"},
{960,"4855681","4a1781","37486313734b8e3b5305b2b0b0b7a79d0bdcb48fc8fac5dce955828e770c293b63ef077f93ecb48f91b262c97609f4532406768ab3375fe2880fffffc8b79cec8cb471c4acfa4d4f4f485862f4234b7037053a2316aa7d7188f3d6c49c10f8806c134b706e4d9d3689f60bacdbf989754cc8a01d77f"},
{960,"6700417","663d81","280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f00000280fffffd7f"},
{960,"22253377","1538f41","c100c0ffffff3eff3f000000c100c0ffffff3eff3f000000c100c0ffffff3eff3f000000c100c0ffffff3eff3f000000c100c0ffffff3eff3f000000c100c0ffffff3eff3f000000c100c0ffffff3eff3f000000c100c0ffffff3eff3f000000c100c0ffffff3eff3f000000c100c0ffffff3eff3f"},
{960,"394783681","1787ebc1","ae11956d62f221956d62440fffffff51ee6a929d0dde6a929dbbf0000000ae11956d62f221956d62440fffffff51ee6a929d0dde6a929dbbf0000000ae11956d62f221956d62440fffffff51ee6a929d0dde6a929dbbf0000000ae11956d62f221956d62440fffffff51ee6a929d0dde6a929dbbf"},
{960,"610548481","24643b01","708dbdcc77b472abbe6ecf536c138814c334d7630363a9f63ab66c6d52730490f7f6d464d334d76292d5ec29c301f9c19404353d8be34c500fffffff8f724233884b8d54419130ac93ec77eb3ccb289cfc9c5609c5499392ad8cfb6f08092b9b2ccb289d6d2a13d63cfe063e6bfbcac2741cb3aff"},
{960,"4278255361","ff00ff01","100fffffffeff0000000100fffffffeff0000000100fffffffeff0000000100fffffffeff0000000100fffffffeff0000000100fffffffeff0000000100fffffffeff0000000100fffffffeff0000000100fffffffeff0000000100fffffffeff0000000100fffffffeff0000000100fffffffeff"},
{960,"4562284561","10feef011","f1000f0ffffffff0efff0f00000000f1000f0ffffffff0efff0f00000000f1000f0ffffffff0efff0f00000000f1000f0ffffffff0efff0f00000000f1000f0ffffffff0efff0f00000000f1000f0ffffffff0efff0f00000000f1000f0ffffffff0efff0f00000000f1000f0ffffffff0efff0f"},
{960,"46908728641","aebfa6541","17707b5d2ad8707b5d2ac0ffffffffe88f84a2d5278f84a2d53f0000000017707b5d2ad8707b5d2ac0ffffffffe88f84a2d5278f84a2d53f0000000017707b5d2ad8707b5d2ac0ffffffffe88f84a2d5278f84a2d53f0000000017707b5d2ad8707b5d2ac0ffffffffe88f84a2d5278f84a2d53f"},
{960,"137603804161","2009d36c01","7fd8be5dcee201c01d30119596d65fb5cd8db43388a12a36b61088e44baade3c529f9fc5cd8db43308c86bd8e72e87242e7acca6bbc9400fffffffff802741a2311dfe3fe2cfee6a6929a04a32724bcc775ed5c949ef771bb45521c3ad60603a32724bccf737942718d178dbd18533594436bff"},
{960,"44479210368001","28741f88ac01","654075400fffffffffff9abf8abff00000000000654075400fffffffffff9abf8abff00000000000654075400fffffffffff9abf8abff00000000000654075400fffffffffff9abf8abff00000000000654075400fffffffffff9abf8abff00000000000654075400fffffffffff9abf8abff"},
{960,"18446744069414584321","ffffffff00000001","100000000fffffffffffffffeffffffff000000000000000100000000fffffffffffffffeffffffff000000000000000100000000fffffffffffffffeffffffff000000000000000100000000fffffffffffffffeffffffff000000000000000100000000fffffffffffffffeffffffff"},
{960,"94455684953484563055991838558081","4a832c756c4b78084e13ce14781","36f8810036f880ffffffffffffffffffffffffffc9077effc9077f0000000000000000000000000036f8810036f880ffffffffffffffffffffffffffc9077effc9077f0000000000000000000000000036f8810036f880ffffffffffffffffffffffffffc9077effc9077f"},
{960,"14768784307009061644318236958041601","2d82843d1bc3c7c78ed941da4a601","5a00a5ff5a01000000005a00a5ff5a00ffffffffffffffffffffffffffffa5ff5a00a5feffffffffa5ff5a00a5ff00000000000000000000000000005a00a5ff5a01000000005a00a5ff5a00ffffffffffffffffffffffffffffa5ff5a00a5feffffffffa5ff5a00a5ff"},
{960,"10559241583796365631935764162530238561452234881","1d97e2613a93b75fd44c987165ba169ff5b1881","8a68e333673536833796a6a4d3d23c8f1dcbdd280b68e333673536833796a6a4d3d23c8f1dcbdd2780ffffffffffffffffffffffffffffffffffffff75971ccc98cac97cc869595b2c2dc370e23422d7f4971ccc98cac97cc869595b2c2dc370e23422d87f"},
{0,0,0,0}};
