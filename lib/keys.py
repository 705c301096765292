"""Fixed key material (generated once)."""
RSA = [
    dict(n='xc11a3bbf2d43d6ff6948464dacaeab2516abed0d0e0e219fa26f25734be9ceca7e6d6df973eedeccde350abad25be5c7eb15f28efb101eabd2f5b5756cf1d310dec1c95f9434dfc79d7869f76fba583d7bd6fb81f2b10fda0519cd3dc6af908d380d0780a72603a6eea7214704cc12dab965868d86edeea2e962826aaf8b7096e3d9bbc9f1644eec6b8921c37e6d72317d6035cdc23488f5bb9a60e6e21a08a3aba1da7671f248133ab7037708a6e4b83164065117c426cc9646d44197d15ae76c8bf8ae63f9574d95804e81bb222443657f9916c71eaef1111f17f30640889dcf946feb5b1253a5cb389800dabf4f186d936c02edde6ae18f2b65fa807c963f', e='x010001', d='x960f7dd89e2377037adc888dba20eeacdec6726bcfbd5991c5581c4151fffb0c4f5d58b61ecac5676d52c8e8cfaa4c91a475a4ce49fa87eb3d0066a83f2659c0656b30c34ed81c02f2b36d9db4bc99f005b9d62f70dafa1792192feecee5062f481c8ff5016fc02ccc8f22841f0d3ba5afa75efdc29a49f55dea88b0c18459d3fdc43e12a5e295d24a52ebb05ea110be50b007986c49b74f9991f2feed2e8b7560468a677da4fddbe8441b47b6f6ed1a810f1b55917a768072a6e74daa16fd5132e34be7d2535362d06cfb8f5e6cb734bfdc5deeed469b3833bae56a30417ac8abeb1b7014861c8426f699875873dd4fc98bbdef380c9f1ac6352d41ba696479', p='xf0f47f35d0380cfbcadd40e92c34bf1c7f453a0ef5097b4fd5de6e91074206e247aa2dbad9e2ec8d009f001680289e32a93f32a9a17251028e4edc90253d9e303ce1268c9c8052e3ffec3fee8ed2305df3faa8e879eaa7234ad5cfbc1d74bd1cf08db22fd293056a3170fab23d90fbac32833106536e95df40b2d002cc92d66d', q='xcd28d864d6e89c6a198f69a0138851b089eb3061b44a724c9866f05870093d3ee6b1e07c8f62fcd6b27db193333bd939d86bb32f14b912571266ef64311275fc39c0d03234795347783bea5c88b224f042a68fecc75a23c48d0d866b165195371e07ea63524ca98f54dc77a72ed0d50a63783933d5f00510ff6af8af81df63db', dp='x185a9e00f26ab7e53b3be1b3afa4252cdc30430dfff655605c5d7f0f698c62e5bc189746ab7f24299c4675dbd0584aa514362f08b628b7c76a5ace30439356c9c95d7867fde97a775106afef8cbff1e38d2568ad16a580ff30312c2df74c3551177f3ae35a8541a6da18713e52bab4b552e5afaed3fff965f7441b822ceb2a81', dq='x184a00ac97a0fc7bb740fa61604ea055454ed9f08756d5076a77ad76daf4cd12785f90d34e6a8ac2a4692b2fe13df1aede8789b44640cf020e04afccedde60a796f2d3f34db11b81f7a3285102420d0b80e8955b941280ef913f8bad7bfbf6ad8ad9a70f513c104b0ee1f72c8ce75e81975b3172889e9d0af1226a04e55c5c47', qi='xb4a8305a0c747e2dd07bd005441cffeef8aa5f610de2d49c7af02f3bbb91b2e1b1b5ecbdbe90d2a757cc86ea91f6e19110a632702eb2ae3d1ebe006e7c0c21e07f01811d79923932ce9f9f2ee360edbca2d77f3982c5fe97956ac954b78f0c12ccbd0a276269d3c8d878cc502c17faf41d4c827d6cf73e31dd285de4d7d31df6'),
    dict(n='xc5c50df4a823b5baae0a0a200fa95710e841513b9080887eefc6b1ed4467b23df0740fc8acb659472fd1ba3be67eceecdb6b5bb3fcba4031a2c67b707608aa61751f65fb8ccdb5e42ef0f9fa97f1849d0e132b58a423e56f7458806858b0b8a72deb932802fa714f6f7bb7ec66ef9ea998a19bf98e284076d23aece47657778a584dec7d29cf76bdff69509a2e544b13f16ddf775e2b8042e6f7e149fa347662ba3e58145e47f3a7788b4246fe643dda72feff41be9e45b0653862d30efe4513803925dfe84c24ca67d6ba8d689ae2dab3e9b5110c1198ea27c49351daca0a3af8e25faf483050d1b8715b63dea022aa56d6aa7fda94e3d7ee9bdc150819d089', e='x010001', d='x1758436575d381481ff31f6ed96a6bd49b15dab8e53dc6def4fec751f2992af914c11e7bd9a74cb2927a77394ae3fd19086d8bcd9b2f81145ada8307ab672a758695c63c034ae505a264df9d2d025d5d0ca446a197fe84bebb4517233a14e23719bc8d0a540fac006c70762d79991f697592de0e7f31512ab5762f3068a7ba7c6ce8fa9f8a866d3689152a29dc0cc5927c8cdfba891e26a9935d2e06c707cf129c8a568ee8c8fcfbf639114070de703f25c9535d446e1d24e43a3234706dac4e861b8702fffc33a3c62e6a22264b8d1677b7ae7977fbad72b483316e0a7b97477fb5a83765d335131c4ffbb8f9cf6bf3d9ae15345fa790f842175e85598fc6e1', p='xd40417910e6fd1c9879be8e7efd5962959f63b7e1f1950d9f9a5a4fb8d53694ceb7361e9c6df1a56a0879a1471dbadab459ccb821b420c79f926a2d089b8a6a0c8c0817cc814db98eab7658c144f0b6ad3cdfaf77613b8c093af0473184cf29a1677cffcd988d7c654313a3bbe3e00fc36480de2bd5ce366b517da60fb69e25b', q='xeecc5cb6fd42cbf8c299ac8f5ba9468bbeef28e40a19deaca1e99e647eed8e760d5f1c8308fc1db7fc1de21ff27e776103465de3626351bbcdc98766c4bd1f80236a7113bcf75d506713ac5978e7ec8c929a10e5381ad1203f702a7e87ed8c029b0814f4f2245518951fd49dc045596e67714350f959567cc592cfc6d7d5c5eb', dp='x2155835f0b260995e5fc5d621a133ac8c59c313e632557d0edaf5d812f772dd72a2db9f7478d4c56d2667f93375392ba9af74c07e8c139b4f3b75f61ea455ded69a2dab903bc43ca871cce9a7796f5f495d88cdcdb73be5888dfbb935cfebc25fde2589128a29b4a537269f57ab3c4f3e294f199f4abe614ffe40031bf55a681', dq='xcdfab5569a6a8daa8ba126b999a50fd6e6e14072434c4148c378d249793acc1184433042cef33967442f3aa7b7f1e2636a01be66aead61090fdeefce739176a47ee80795b0ffe61bbe6db7d28d79f00ee93dbfa91895f92149d724b073eb3143e61a3889787c62728bdf22f4d7ae7a0fc3666d5c6158f0433be1011c517c71f5', qi='x2c5a189571afe9ce95a33a3df8ce12856361b3fdbff826669da303382bc4695f884d459bee48a184950b6b8bdc9a869a11b05a42314fe2f214741bb77094d430bd0da0fc73390584bd44e4e9d5d3fd6c4f92d5367006ab25616a872e9db5dd1c437b7cdff0048bf4b1c1ef965976e36ebbc4a871f5af96d8f0cc706b36fbeaf7'),
]
EC = [
    dict(v='x7d26e283b032b1e19014f0eee7b5d71c810717e7fc520fde418bccad1e2e8b1c', pt='x044104aff1559dda2cec69594d49586e2181119ae01ac28584e5f89b49e554c51fd3b69dfb8b623bc8bd2c38a1276353851a60d8d6938fc08215acac12361a0885f092'),
    dict(v='x25bca5d7185e791fa78e885cb123fc33d295ae6978b5559da6911f050e532389', pt='x04410403113a9afb10cc7c2be88b5e73f9ace46d57a3a2c8caa900a39ee4444cf3e0db1dae2348e6bfd8e1af7df987c85ce986ec49e7afdd675a135a49eaa222de0644'),
]
P256 = 'x06082a8648ce3d030107'
X25519 = 'x130a63757276653235353139'
FFDHE2048 = 'xffffffffffffffffadf85458a2bb4a9aafdc5620273d3cf1d8b9c583ce2d3695a9e13641146433fbcc939dce249b3ef97d2fe363630c75d8f681b202aec4617ad3df1ed5d5fd65612433f51f5f066ed0856365553ded1af3b557135e7f57c935984f0c70e0e68b77e2a689daf3efe8721df158a136ade73530acca4f483a797abc0ab182b324fb61d108a94bb2c8e3fbb96adab760d7f4681d4f42a3de394df4ae56ede76372bb190b07a7c8ee0a6d709e02fce1cdf7e2ecc03404cd28342f619172fe9ce98583ff8e4f1232eef28183c3fe3b1b4c6fad733bb5fcbc2ec22005c58ef1837d1683b2c6f34a26c1b2effa886b423861285c97ffffffffffffffff'
