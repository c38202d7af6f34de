// A primitive pentanomial of each listed degree and the prime factors of 2^d-1, found and verified with
// big-integer arithmetic outside this code base (products multiply out to 2^d-1, every entry proved prime).
static const char *TRUEP_128[] = { "3", "5", "17", "257", "641", "65537", "274177", "6700417", "67280421310721", 0 };
static const char *TRUEP_160[] = { "3", "5", "11", "17", "31", "41", "257", "61681", "65537", "414721", "4278255361", "44479210368001", 0 };
static const char *TRUEP_192[] = { "3", "5", "7", "13", "17", "97", "193", "241", "257", "641", "673", "65537", "6700417", "22253377", "18446744069414584321", 0 };
static const char *TRUEP_224[] = { "3", "5", "17", "29", "43", "113", "127", "257", "449", "2689", "5153", "65537", "15790321", "183076097", "54410972897", "358429848460993", 0 };
static const char *TRUEP_256[] = { "3", "5", "17", "257", "641", "65537", "274177", "6700417", "67280421310721", "59649589127497217", "5704689200685129054721", 0 };
static const char *TRUEP_288[] = { "3", "5", "7", "13", "17", "19", "37", "73", "97", "109", "193", "241", "257", "433", "577", "673", "1153", "6337", "38737", "65537", "22253377", "38941695937", "278452876033", "487824887233", 0 };
static const char *TRUEP_320[] = { "3", "5", "11", "17", "31", "41", "257", "641", "61681", "65537", "414721", "3602561", "6700417", "4278255361", "44479210368001", "94455684953484563055991838558081", 0 };
static const char *TRUEP_352[] = { "3", "5", "17", "23", "89", "257", "353", "397", "683", "2113", "65537", "229153", "5304641", "119782433", "2931542417", "43872038849", "275509565477848842604777623828011666349761", 0 };
static const char *TRUEP_384[] = { "3", "5", "7", "13", "17", "97", "193", "241", "257", "641", "673", "769", "65537", "274177", "6700417", "22253377", "67280421310721", "18446744069414584321", "442499826945303593556473164314770689", 0 };
static const char *TRUEP_416[] = { "3", "5", "17", "53", "157", "257", "1613", "2731", "8191", "65537", "858001", "928513", "308761441", "18558466369", "23877647873", "21316654212673", "715668470267111297", "78919881726271091143763623681", 0 };
static const char *TRUEP_448[] = { "3", "5", "17", "29", "43", "113", "127", "257", "449", "641", "2689", "5153", "65537", "6700417", "15790321", "183076097", "54410972897", "358429848460993", "167773885276849215533569", "37414057161322375957408148834323969", 0 };
static const char *TRUEP_480[] = { "3", "5", "7", "11", "13", "17", "31", "41", "61", "97", "151", "193", "241", "257", "331", "673", "1321", "23041", "61681", "65537", "414721", "22253377", "394783681", "4278255361", "4562284561", "46908728641", "44479210368001", "14768784307009061644318236958041601", 0 };
static const char *TRUEP_512[] = { "3", "5", "17", "257", "641", "65537", "274177", "6700417", "67280421310721", "1238926361552897", "59649589127497217", "5704689200685129054721", "93461639715357977769163558199606896584051237541638188580280321", 0 };
static const char *TRUEP_544[] = { "3", "5", "17", "137", "257", "953", "5441", "26317", "43691", "65537", "131071", "354689", "383521", "2368179743873", "2879347902817", "373200722470799764577", "335631827046798245410603730138717057", "63406006407727721042109834220642811713", 0 };
static const char *TRUEP_640[] = { "3", "5", "11", "17", "31", "41", "257", "641", "61681", "65537", "274177", "286721", "414721", "3602561", "6700417", "446960641", "4278255361", "96645260801", "44479210368001", "67280421310721", "3442404051886487041", "94455684953484563055991838558081", "2715862005931406599419575483412481", 0 };
static const char *TRUEP_800[] = { "3", "5", "11", "17", "31", "41", "101", "251", "257", "401", "601", "1601", "1801", "4051", "8101", "25601", "61681", "65537", "268501", "340801", "414721", "2787601", "82471201", "3173389601", "4278255361", "44479210368001", "3399426377632056001", "4850484222084371979240001", "432363203127002885506543172618401", "129541188208935646963818844716591986208974410651257601", 0 };
static const char *TRUEP_960[] = { "3", "5", "7", "11", "13", "17", "31", "41", "61", "97", "151", "193", "241", "257", "331", "641", "673", "1321", "23041", "26881", "61681", "65537", "414721", "3602561", "4855681", "6700417", "22253377", "394783681", "610548481", "4278255361", "4562284561", "46908728641", "137603804161", "44479210368001", "18446744069414584321", "94455684953484563055991838558081", "14768784307009061644318236958041601", "10559241583796365631935764162530238561452234881", 0 };
static const char **TRUEP(int d) {
    switch (d) {
    case 128: return TRUEP_128;
    case 160: return TRUEP_160;
    case 192: return TRUEP_192;
    case 224: return TRUEP_224;
    case 256: return TRUEP_256;
    case 288: return TRUEP_288;
    case 320: return TRUEP_320;
    case 352: return TRUEP_352;
    case 384: return TRUEP_384;
    case 416: return TRUEP_416;
    case 448: return TRUEP_448;
    case 480: return TRUEP_480;
    case 512: return TRUEP_512;
    case 544: return TRUEP_544;
    case 640: return TRUEP_640;
    case 800: return TRUEP_800;
    case 960: return TRUEP_960;
    }
    return 0;
}
#ifndef NO_TABS
static Tab TABS[] = {
    { 128, prime_factors2_128_1, { 128, 7, 2, 1, 0 } },
    { 160, prime_factors2_160_1, { 160, 5, 3, 2, 0 } },
    { 192, prime_factors2_192_1, { 192, 15, 11, 5, 0 } },
    { 224, prime_factors2_224_1, { 224, 12, 7, 2, 0 } },
    { 256, prime_factors2_256_1, { 256, 10, 5, 2, 0 } },
    { 288, prime_factors2_288_1, { 288, 11, 10, 1, 0 } },
    { 320, prime_factors2_320_1, { 320, 4, 3, 1, 0 } },
    { 352, prime_factors2_352_1, { 352, 13, 11, 6, 0 } },
    { 384, prime_factors2_384_1, { 384, 16, 15, 6, 0 } },
    { 416, prime_factors2_416_1, { 416, 9, 5, 2, 0 } },
    { 448, prime_factors2_448_1, { 448, 11, 6, 4, 0 } },
    { 480, prime_factors2_480_1, { 480, 16, 13, 7, 0 } },
    { 512, prime_factors2_512_1, { 512, 8, 5, 2, 0 } },
    { 544, prime_factors2_544_1, { 544, 13, 9, 6, 0 } },
    { 640, prime_factors2_640_1, { 640, 14, 3, 2, 0 } },
    { 800, prime_factors2_800_1, { 800, 14, 9, 6, 0 } },
    { 960, prime_factors2_960_1, { 960, 13, 9, 6, 0 } },
};
#endif
