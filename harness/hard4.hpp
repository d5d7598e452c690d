// f, g ( N = 4 ) met by the solver below a sampled Falcon1024 key: they nearly
// vanish together in double precision FFT form
static const char* const HARD4[8] = {
  "b78c3d243e6f42f6a49ffe303b11a2ba1e79cb5f0ad7c1b68fc5c30d25b8025999fd2dd3d8e9b104b27c6c89b9b55c81a8ae479e44e6adac42814a187a7bd4195cc755e4fdcb1da08b05e9273ba4182d9fe4fd294c44b8002265a3da579ce096bc49f2cface9b1a70eafa0a1c188d4de3d5d297377e28583b6e2aad1863db324807da54f140fcdbffd8a853d91f310ab6ed78fc94f853baf204eeb5dbec44c209c59d24a105658748df68954b6b7abfac382bd2c677cee2ee7ab4587f54e42ff14593c4",
  "-47c6df511e5c722efddf8aec322d1e3f42acf6a571107b083ad028c0397cfee13a39384d260b504da5adc6b7fffd25f47959329f8a4c9c5a4b56206e74072879c30591cfa2d8339aaee0a14a2cca24a1a794d66f4c18a7ca81757a436e5eea098dbf16b961b101115e308123c57365b21325cec967091e989369e9742997b3b44f74057fa7f649c99d4ace48f91499c93c0a04f426631395fdc567040e6b7483c678ea172c53f95004c2cd31a821ca2a91d6f9a8eaa326f9859d99302010444713bddcc",
  "-520a5272fcaca0b756e114a902c42a5969ac260a97ff60681e3aacfa7fab4162a69e467bfa4626107678a8baa88708047bef8fa58d2e05eec9abc7e62bc235376841314d88ce7e0b186197b5befe0400d2dc272521267f6275094b152b3727ef725fd4ad49efba7acb4da1754d63bac6846ac157249760214a31c781ce227cc8b2a677ea76c10a352ec4030bfd6aba1e57e03d942d914ee971ad62bd5b31b2086db6c97059d0523e033ded12c29dea6e8385539fda95d0952151c7f87528c0fe74b8af5",
  "bbcc03649916b4738c1dfac0f7fb012a94cca2ad78aed6012e051f9c44180e21cc3b8589c850b703341c4a9c43058fb817781314ede91dfaf74ac7a8ad32be1ec11eee9c454951ec0a4465c175bf1370150fdacbd8de5cfa93b2f4ec59f594dcc9eefb8bbbafc6238965caf1d5378755a7527be991352cd0967ac1c5246be9b4149e07bac08a028b88480c3b0e633a0bb5233c82397d52923b8fa2c84fa9c0c0a728dbfa143467340313638281be8ef425fce32aee5cb1e2318226569ec3186df0c2c82",
  "-9015e6e402379286fecf70f5174a30ddaca1a5b2c8f1964a9da960a8e6c281c37e9231e0dcd3b43b07d55ddee2131ae344f2c59256de5eb84e444d5e5540e47e1abf030fa5176a265651c853cfffa29707f26b978b712221a0215e3625965a84972cb82590f606ff588f754bc1623ffe4ae6fcc1b34bd5549408a2481aceadbba82a80a992ce370a3e4a663edf16e759c5193fed48b13cd81d3587ee5c91d4b38811b9bba8b84627c5f1ba817c373dd9bba1c8b9e80329b5fc0c0d3169347e0ec73cd74286f7f1485",
  "87aa463e20532c4d8c3bb160fdbb5ad732e87e7e6c27a53ce687c91b71ef7d73d7d11aeff9a5bc8d05224901e02909e9fca5798e3bbfc908a9b2c43d32df165f71187cc15b134e1a75da9e23e1546d601ad967d3e49d3ded50933619d12653008a7bfd2d71caed60c6fdadff2b02bfecb01f54cc6b77eb637b23b574a85fbaac900b27e53829871bb9734b1b8ccb9f19c89c531fa80ed6d53cc6ee2d185f8d392db88cfe7e5ae4cc1673acf0d7434aedff97d8fd8a2ea3bfe2490c6ee099b907ab7eccaf4785de83a",
  "-2fc61f866175ed8d5561940710382191f144bf0034e50f1025b0bd3f9e0b50c614cabbe47559c870a549c4fc6c4eadc0342a67a8cbfbc4ba44bb443fcb1f5febb7be36ad3430f08428fe38477f9cff28b65f78769fdcd1710786e06aaf1b71c68aea05afe67152b156d314f620408b1aad462ab1303bc706b50d95a8be73b2e145f2d2732da05dde7da260f3c7b27d90722e44419c6b7571fa4a885b6a78996e1028f473192fd958266b39ddbb41ac984502290fbad0d45c5c3cf2e6abee0b4c8e3139390e8145b3c",
  "-441a44b3984347e54fe6f09b8faa1a8b00b9e26d24ced4a1087684efc34e3220bdfbe37fbca3056b51663da122efd8517857cbf302fbc488bdfbc2c46e69a8fb25e08e78d8b42c5cc926cf4a42536fcbcb26bd345d26ae4c6da354d18418325b48705ead256e57c86c04c7443767235440ab9ac8c09b7f0dd6baa876dc092c6a73901e44ac4b0c02370153477509530a6b4bc09e11cca0c8a596a75c27bd550393b2ffd73f4054337d1cd1c6aeb28ba775d248464c144d546e80801618badc29316ba6eca3acad23c" };
