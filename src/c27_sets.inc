// parameter sets printed by the creators, and published ones
#if defined(GEN_RMT)
    "521,5,195d5416aa3d2406,a6a28482bc200001,f3ffaffff4da0000,ffd55f0000000000,61",
    "521,8,d517cc6cb80f3089,6419c126c80d4911,7f94fffdd89c0000,fef563e000000000,37",
    "521,7,48b4300edff02ab1,2843904de3400001,5dfebffbbef60000,fbda692000000000,89",
    "521,4,fc85dc4941042c5a,8af04736a77b8481,f1ffffbbfef80000,fff5528000000000,16",
    "521,2,8a32216e748994f8,3db6b0d97a52ee01,f3bd6effdea00000,fbdabb4000000000,23",
    "521,8,4a1e2bd688daf86b,30194f266faa0001,e3d6efbbfebc0000,fdeb51a000000000,109",
    "521,7,fe98eb6e1b9188af,e7170a40f49dd101,feebdcdef2b00000,e9d56de000000000,25",
    "521,5,cbd8d35e16888a2b,281aa5c3e2643c01,faeef7fbf5fe0000,edaceea000000000,16",
    "521,7,eaa3a34805947bbb,3e4e63fc617eb001,fffdfff7ebd60000,bdf556c000000000,24",
    "521,4,6bd68d02db8685bf,f66388b1f8204001,f1f7ffb7adfc0000,ffd56f2000000000,50",
    "607,7,a71f5b57dbe19544,51685dea00000001,afffffefdef60000,f95adfc000000000,32",
    "607,3,51ef3eea77511df5,f9e7280000000001,fdffebf7ffae0000,feaad76000000000,58",
    "607,9,531b4993b661dbe1,f349ce0000000001,b9bdfafd7dbe0000,fb7545c000000000,141",
#elif defined(GEN_SFMT)
    "607,1,11,1,14,3,7fc7646d,f1de9ffa,ae3dbcd7,d547b5bf,00000001,00000000,00000000,27624eb7,260,499,869",
    "607,3,2,1,21,3,fd4bbd3d,571c9ffb,fc87e83f,fef32cff,00000001,00000000,80000000,0960a868,552,702,1002",
    "607,2,21,7,12,1,eb9b3ff9,ffff5cfd,e7f7d4da,597fdffe,00000001,00000000,00000000,44f792c5,268,556,387",
    "607,1,28,5,7,3,9df5fbde,fbfb5f7c,aeeffbff,bfe74b7f,00000001,00000000,40000000,1e6c150c,346,389,578",
    "607,3,7,1,27,7,57fb7fd8,dbfdffb6,9fa5ffd7,fbf39fee,00000001,00000000,00000000,99f04084,505,916,1023",
    "607,3,2,7,9,3,ffbbffef,9f9e3d5f,7fe35fef,fb67dfcf,00000001,00000000,40000000,4b66bd79,549,575,337",
    "607,2,9,3,8,3,aff9d72f,ff7bfb69,6ffdf69d,dffdff7f,00000001,00000000,00000000,578f681a,182,269,535",
    "607,3,21,1,23,1,ed9f7fd7,fbfbd7df,f9ebbf7a,eefe9479,00000001,00000000,00000000,6b96cbd2,143,463,899",
    "607,3,4,1,7,5,fdfaf75b,ff7727b7,ffdb3fe5,5f7e28fe,00000001,00000000,10000000,f6ef4eee,332,651,994",
    "607,2,23,7,25,1,ffcd1cba,ff5bf7ef,feaaefdc,dbb4f2b7,00000001,00000000,00000000,f593de34,690,768,537",
    "607,1,25,1,7,3,5efefe7e,d2fece9f,eb01eddb,fe915dfe,00000001,00000000,c0000000,bf7c2da2,665,462,866",
    "607,2,11,1,3,1,bfffbf7f,5b67fa5d,dd7fd82b,f54affcf,00000001,00000000,80000000,d0a855aa,209,494,857",
    "607,1,2,7,5,7,bffdfbff,efdbcbfa,e0fecd37,f19f5fbf,00000001,00000000,00000000,5edd90a0,627,1095,1016",
    "607,3,11,5,15,1,319ed7de,d9edfbff,e9f78dfb,fff6f3bf,00000001,00000000,20000000,7276dc3e,201,234,250",
    "607,2,8,3,9,3,f7ebffb3,b7ffefee,bafdffff,fe74bcaf,00000001,00000000,80000000,fd8093a8,521,305,475",
    "607,2,10,3,7,3,4fad93ff,7ffaf9ff,bd5fd72d,b7765ff0,00000001,00000000,00000000,2a568155,95,268,505",
    "1279,3,11,1,18,3,fbf7f3b7,ffbbde7a,7ff34bff,8e7eedf7,00000001,00000000,00000000,00000000,529,1128,1952",
    "1279,8,22,3,3,1,56f9df9d,bf95efef,df54dc3f,9ff7fef7,00000001,00000000,00000000,20000000,569,541,1042",
    "607,2,15,3,13,3,fdff37ff,ef7f3f7d,ff777b7d,7ff7fb2f,00000001,00000000,00000000,5986f054",
    "1279,7,14,3,5,1,f7fefffd,7fefcfff,aff3ef3f,b5ffff7f,00000001,00000000,00000000,20000000",
#elif defined(GEN_DSFMT)
    "521,1,13,000ffaff7a79f7bb,000effaee7ffbd36,b22f42f7923947c6,9bca74c2fc30a5f6,0000000000000001,6f3cf20000000000,97",
    "521,1,13,000bfbffb957e3be,000dfd0fbffeff7d,88bdc1c580407f2a,a172001a38d94955,0000000000000001,5f2d5a0000000000,152",
    "521,1,9,0007e1ff7f98efb7,000e7ee4f7b3eff7,722aabd47bbc006f,8b38ce883896940d,0000000000001001,4088000000000000,271",
    "521,1,27,000f99ddf6fff2df,000de8bbad6decfc,ac4d5bb4af1d60c0,e2066e77fb086e21,0000000000000001,a200000000000000,121",
    "521,1,39,000cffff3ac61fff,000fc23efebebf3e,263a8e41ec3a3ea8,89c1e39d8640fb39,0000000000000001,4560000000000000,218",
    "521,1,15,000d5bf5efafffde,000eda7f7f4eff65,8de119743c3b631e,3faba700e2ce999b,0000000000000001,53d3000000200000,103",
    "521,1,7,0007fff17df7f7fb,000fffafbbbffeff,a8678736636a3517,bb8b5e8c28c18a0b,0000000000000001,87c4000000000000,229",
    "521,1,47,0007e3f6ff7af7ef,0007dd7dfbd769fc,192ab675bc3b2a34,7b4b2b8a3d7a9312,0000000000000001,8820000000000000,200",
    "521,1,25,000fff787fdf5ff7,000bdfff66fafd23,e08a4537dd563a99,09ced71237ed63ca,0000000000000001,21535e0000000000,110",
    "521,1,51,0007ddb7fcfefddb,000fbe64ebef3dff,9e15046079d8fa56,d993c1004a510dd4,0000000000000001,67dc450000000000,158",
    "521,1,25,000f4a3dfd5fbfde,000f7dfde7ff3f63,a48103d1c2bccb9e,027aeea3d0e3c529,0000000000000001,ce8c400000000080,101",
    "521,1,43,0006ff59ffef9bdb,00056fffceb1dedf,d763c5c1ae3274e5,19b6407ea0869ef7,0000000000000001,2008000000000000,208",
    "521,1,47,000fe63eff7ffbfe,0003777e7dfef2dd,ce8193b5f3188b64,d3393a605e9f3833,0000000000000002,a1e1000000000000,177",
    "521,1,19,000d3eff6feeebdb,000fdffbfd6f3df7,5f546ec83f70176f,d36cae8f67b9c4c2,0000000000000001,95e5740000000000,89",
    "521,1,39,000dfbfffdfaff3f,000deacbfdbe7fbd,f840b1874b1637eb,594a8179861a15b9,0000000000000001,4400000000000000,190",
    "521,1,45,0007dcef3737a939,000ffaffcffe73ee,2ecf07b77e7deca4,e3e305e825bc02ad,0000000000000001,8400000000000000,247",
    "521,1,49,000537dfebf6ffdf,000febf1ee676bfe,ebcf7cb83c484fa2,a3e3882aa27c3c93,0000000000000001,42eca00000000000,159",
    "521,1,43,000de201dcffefbe,000d7cffb9fdf6fd,627d8ddd2d0ee7fb,8da10ddaa1f74f5f,0000000000000002,3900000000000000,273",
    "521,1,23,000d97dbdfbaff7f,000e6bb99ffdfff1,5bb35b68bc51b5b8,1fba1daf2f8526f6,0000000000000001,5786840000000000,98",
    "521,1,29,0007f79b3dfaffbf,000bf7f5b67eeed7,d24446293a872705,bb980ddb4cd227bb,0000000000000001,2032000000000000,124",
    "521,1,21,000ff6dffeffbfaf,000ffe3eeefbdbf8,dba3e37c00d8b203,9479470505e34d40,0000000000000001,c594ae0000000000,117",
    "521,1,17,000cdeeafb74fddb,000b3a1fee7eff3b,3af16048f1ef2ec5,a2a68f08d29d3065,0000000000000001,e696880000800000,126",
    "521,1,21,000ea21af6f59571,0005fd4a67dbfddf,c3bfd22040d89275,a5f2f9410e54d5e0,0000000000000001,ecdc100000000000,135",
    "521,1,17,0007fea63ddbf73f,0001eee77f6fff7d,f9b528b788dc8430,829f8c4f6b1ed65b,0000000000000001,4279020000000000,101",
    "1279,9,21,000efdf9fdf86d76,000ffbba6b5bdb7f,f8580a7da8893edb,4a324ab4c5880bbf,b918c30c80000001,9137c6eb819e3bc7,147",
    "1279,5,25,000babbfbb0eb6ef,000dbd69e5bfb7df,e49ac634efe25a6c,db42d479ceb8e922,af22142b80000001,b3dbddaee8abd27d,185",
    "1279,7,43,000ffdfeeffdf5f7,000bcb9efbe7ff77,1a9d555f25c7d58e,9da130c4f404a289,0000000000000001,ac807e326d41fc50,383",
    "1279,7,29,000f77af97dffbd7,000dcd4b5ffeab75,da5ac3888280cd42,5f866c56e0d7da3d,0000000000000001,cbed3435a4790000,389",
#endif
