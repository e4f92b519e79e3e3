//! Points of P-256 with a conspicuous x or y, found by solving the curve equation.
use crate::nat::Nat;
use crate::p256::Fe;
/// (which coordinate is special, x, y), big-endian hexadecimal.
const TABLE: &[(char, &str, &str)] = &[
    ('x', "0000000000000000000000000000000000000000000000000000000000000000", "66485c780e2f83d72433bd5d84a06bb6541c2af31dae871728bf856a174f93f4"),
    ('x', "0000000000000000000000000000000000000000000000000000000000000005", "459243b9aa581806fe913bce99817ade11ca503c64d9a3c533415c083248fbcc"),
    ('x', "0000000000000000000000000000000000000000000000000000000100000000", "328bbc85099acc7685cf4bb5e18d72c57271615ccd46377bfacb0e8501aa76fb"),
    ('x', "000000000000000000000000000000000000000000000000fffffffffffffff8", "dc32e1f22886932904c714fcbd8400b8334ae21656f4604f7791ef54f6dd73ad"),
    ('x', "0000000000000000000000000000000000000000000000010000000000000000", "10048b687675af9815297d73a7f25b1a3c42d33c64b466991a7573b4954aa0b0"),
    ('x', "0000000000000000000000000000000000000001000000000000000000000000", "82ed21a62abbdc157a5172ea851be904ffb5814bdd53e498fb810c32065323c0"),
    ('x', "00000000000000000000000000000000ffffffffffffffffffffffffffffffd2", "4e8c08c2800e31579fc740a0c8b15c34595fa0bc39f5602b73b3857023b9272d"),
    ('x', "0000000000000000000000000000000100000000000000000000000000000000", "4d8531d11aecbfe7bc2c6f48e2a1a3fd264a9165a891001f9b7c2d4a19d9d622"),
    ('x', "0000000000000000ffffffffffffffffffffffffffffffffffffffffffffffc4", "8de0ab154a21b4fafa23cd393ed205c43b610b05c23f48fd70489ca5ff7892e0"),
    ('x', "0000000000000001000000000000000000000000000000000000000000000001", "0898bf9e47abc92277b97b66dab4a90300c750c4bcc090ab79f686f797939a80"),
    ('x', "00000000ffffffffffffffffffffffffffffffffffffffffffffffffffffffec", "a7e1a6ed55cefc535db2906fe10141a97deb379052777d72eac12770744cff59"),
    ('x', "0000000100000000000000000000000000000000000000000000000000000003", "cc1a9fed98b9ede777564557fcf7227dc9a1c18b8c503f5d14e77f911c4a0f7e"),
    ('x', "00ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffe2", "c078e68f7f804c1dcc1df73e47c9890af8192bbad958a48dbbc9d206c3ea23f2"),
    ('x', "0100000000000000000000000000000000000000000000000000000000000000", "9eedb74625cae73e48e8799da95bfc5a92d24d2ee42174d3a306d8bd17f67ad2"),
    ('x', "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffec", "95660f2ab0d7375a4955be2269577724764b1b106ae24e205e1cbd263716a35e"),
    ('x', "8000000000000000000000000000000000000000000000000000000000000004", "2be8789db81bb4870a9e60c5c18c80c83de464277281f1af1e640843a1a3148e"),
    ('x', "ffffffff00000001000000000000000000000000ffffffffffffffffffffffc3", "5b0db5efd1713558734339bd13a21414bddde790b387b88fb1295dec3bc59f58"),
    ('x', "ffffffff00000001000000000000000000000000fffffffffffffffeffffffff", "4d27824f0ce8a1d40aae9ac576154d9605e8496a814ed72478d34821efc4cd4d"),
    ('x', "ffffffff00000001000000000000000000000000000000000000000000000002", "1b65a54119a16eae437e3cb6b98e90a96afa38793ad85bf1f966bff1bfbb22d7"),
    ('x', "ffffffff00000000000000000000000000000000ffffffffffffffffffffffff", "f98f2ab00f03b0672077748f49867d268d86753c800bf9e4540e9bc4ea5d77fa"),
    ('x', "fffffffd00000001000000000000000000000001000000000000000000000000", "1e665c37fba81cbd844e5a48db6a1a03b4a08c63fdafa01f9c872c7a2fa12120"),
    ('x', "ffff000000000000000000000000000000000000000000000000000000000001", "d0923caa5bfb0b846bbbfd6c5538e8fad0b36321f03405556be3dc4d8bb8e6d8"),
    ('x', "fffffffe00000000000000000000000000000000000000000000000000000000", "7559334ac02ec609651f9eb8841c40af77a11d49fbebf23a81a746c9f3576d45"),
    ('x', "00000000000000000000000000000000ffffffffffffffff0000000000000000", "2ba067b4e8dd8a65d1ab38188f64896feea36f21f76886886b324f4d15b341ff"),
    ('x', "0000000000000000ffffffffffffffff00000000000000000000000000000000", "b78809e252cf20875d16f6802aeeea8715c3d1826de6002f3e45c6061a8d2c6a"),
    ('x', "0000000000000000ffffffffffffffff00000000000000010000000000000001", "c7edf41854ce1206cb8973bc782d07b04b4f41766567a79b5ea8a0bbc944c84f"),
    ('x', "00000000000000000000000000000000ffffffffffffffff0000000000000000", "2ba067b4e8dd8a65d1ab38188f64896feea36f21f76886886b324f4d15b341ff"),
    ('x', "0000000000000000000000000000000100000000000000010000000000000001", "d47c3baeaa014d28006526ceffa3cc4b666ab5244af446ef9d4cb8cf9716ce27"),
    ('x', "0000000000000000000000000000000080000000000000000000000000000000", "3ecdbcc47d8353cfbff8e08a9a8adfa1a693f174e93b8367676ea1525c7355c7"),
    ('x', "00ff000000000000000000000000000000000000000000000000000000000000", "6375e60bdd6f7189aa5ad92e19192d9be34d4b051faa068a7e2910049e255588"),
    ('x', "00ff000000000000000000000000000000000000000000000000000000000000", "6375e60bdd6f7189aa5ad92e19192d9be34d4b051faa068a7e2910049e255588"),
    ('x', "1234567890abcdef000000000000000000000000000000000000000000000000", "a946c99df53718fd42da1d7fd84e841c032692c9bc89dbd8c52240b172c97aa0"),
    ('x', "1234567890abcdef00000000000000001234567890abcdef0000000000000006", "076174d97ec8b0609e7f766b9f7f18408a2caedd97df82347550ecaa14a776a4"),
    ('x', "000000000000000000000000000000005a5a5a5a000000000000000000000000", "2debc36b4047ae40c15c64a0caf7fb9ae7ec744f3c05cec02f15eb0b3db5b699"),
    ('x', "0000000000000000000000010000000000000000000000000000000000000000", "c347b11bce10b0e65e29646a579366b363aa12c6e66d0c8a89978bf0e07f70e6"),
    ('x', "00000000000000fffffffffffffffffffffffffffffffffffffffffffffffffe", "650cb9599a70b77b0d4e73b03e7e8950bfda9abdc1ef45567d6a1705ce1027d4"),
    ('x', "1e2feb89414c343c1027c4d1c386bbc4cd613e30d8f16adf91b7584a22650000", "3651db27571e3c8bb45891245f90ede4da7e958b9197c07bd0d80c2658c7cb5d"),
    ('x', "05b6e6e307d4bedc51431193e6c3f3391a2b8f1ff1fd42a29755d4c13a000000", "bab15c028e5cce2998912c74c20356640e15b6355d6a073b78bc75d09861ee69"),
    ('x', "afbd67f9619699cfe1988ad9f06c144a025b413f8a9a021ea648a7dd00000000", "939dce0b03128485937fc082a710680fda619df431bde514ae5071b7c3ac6a57"),
    ('x', "6a8ac4ba05805975ed2f89d94a2f20aaf3c64af775a892940000000000000000", "2431c43e4103525f559f8a75f7423e2d26f09796b5a07d7f0399ce2e0f74f6ea"),
    ('x', "a11d459a2f978d8719999e3fa46d6753ec148cb4000000000000000000000000", "4b6747dab5f989c48277e342454fe9315847c34d5b898b600811bc7fcb8e9f2e"),
    ('x', "e5446dd4552b82f6be3edc0a1ef2a4f000000000000000000000000000000000", "a1fd8399b27c1d6a7118571715bd5c89d50fa208f94101591f1edf25fc8b6d1c"),
    ('x', "81f9c1f66c0f3459f79b17aeefba91fc0000000000000000f9270f4eb8b333a8", "df04bf64a607bdca380e982015c293f3ef5a28fa1c19dacc5781af3c78506d22"),
    ('x', "aa2ca1af6a107b750000000000000000be6521cc3e2434e37af027bc08d6af57", "3db1e85e709993d81a467dfd41e43ad0f2d7118633700aa7593457afb9a3d0c0"),
    ('x', "0000000000000000c69d4bd8b3fa7aa7e1fab9d78c7e134f5dfbd3d12c4a3698", "8a650c742fa77ce2b4bb230f336c9edf0035e75f3ff08dff0ac97203992bdb96"),
    ('y', "09e78d4ef60d05f750f6636209092bc43cbdd6b47e11a9de20a9feb2a50bb96c", "0000000000000000000000000000000000000000000000000000000000000001"),
    ('y', "8d0177ebab9c6e9e10db6dd095dbac0d6375e8a97b70f611875d877f0069d2c7", "0000000000000000000000000000000000000000000000000000000000000001"),
    ('y', "2671d833dd9a9e2075b0bfc4857eec976c8093491f313e535fc073295cf7c2a8", "0000000000000000000000000000000000000000000000000000000100000000"),
    ('y', "73e9911946cc54b43efc23d7c2d96e49d53bacb1b40008a62c8bcd5805c862c4", "000000000000000000000000000000000000000000000000fffffffffffffff8"),
    ('y', "17ae19651c135676f5d67c0ec8287f67ab71a696f0b9fd1ca3ef9d05406fc27b", "0000000000000000000000000000000000000000000000010000000000000000"),
    ('y', "147d9585144afa111b8f37cae1879a27d70d04d2aca9de5d0f4b1a9fd929e5e1", "0000000000000000000000000000000000000001000000000000000000000000"),
    ('y', "5840d6f7eee4a77301d684ea05d04ba116e58cb9c2538f2239b057dd9f90f938", "00000000000000000000000000000000ffffffffffffffffffffffffffffffce"),
    ('y', "6abedadec8ed495f8fbe881824703527ce3effeb8bc5512bc7eaffb64406361d", "0000000000000000000000000000000100000000000000000000000000000000"),
    ('y', "435f78a160cf907e46b700b2e2f78b72061ac4e4964f347c5d1072e47a70bfb5", "0000000000000000ffffffffffffffffffffffffffffffffffffffffffffffc5"),
    ('y', "3db223a59d3ac4690d024771a0deed09e2f51cae01aa148cf1c992d0bc64637d", "0000000000000001000000000000000000000000000000000000000000000001"),
    ('y', "83e1971d1e5ff7b69cce66ac7503834ccab2ebb09bed342f6afeb18afc75bacc", "00000000ffffffffffffffffffffffffffffffffffffffffffffffffffffffed"),
    ('y', "faab2b575874acf3f88a2d1c144791aaaa0e401aa055a22a09d7b4187661827c", "0000000100000000000000000000000000000000000000000000000000000000"),
    ('y', "9846e2f94b2c9ba75e4259348f3e336a949b013efafdbdfd0355e73d2c1d0ac7", "00ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffe2"),
    ('y', "1239bab54236e6f5ced0fb50259fd233dd85a67305dca10e31ee25569212b99b", "0100000000000000000000000000000000000000000000000000000000000000"),
    ('y', "b4ba102e1e91c05451f121bd15d7a6f8a7b0ab7f158bfff1522e589ef42d0d33", "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed"),
    ('y', "8d68fd0d2a7397d1043f14f516aad7c005b73aa881e0b9ce476dd2896bd8dbcf", "8000000000000000000000000000000000000000000000000000000000000000"),
    ('y', "7f9ae860fbcce6d53ceddadccf678463efa9f63c20b4658b45ebca1260f56044", "ffffffff00000001000000000000000000000000ffffffffffffffffffffffc3"),
    ('y', "2671d833dd9a9e2075b0bfc4857eec976c8093491f313e535fc073295cf7c2a8", "ffffffff00000001000000000000000000000000fffffffffffffffeffffffff"),
    ('y', "147d9585144afa111b8f37cae1879a27d70d04d2aca9de5d0f4b1a9fd929e5e1", "ffffffff00000000ffffffffffffffffffffffffffffffffffffffffffffffff"),
    ('y', "d631166d4d47177c07efb92eb73b34f6291a4ddd4a695b5c54e51f5d48274ac6", "ffffffff00000000000000000000000000000001000000000000000000000001"),
    ('y', "2e772e45af25007e4ce251b43ddcd702ffd0aace5eeb93f11370d9805176e63f", "fffffffd00000001000000000000000000000001000000000000000000000000"),
    ('y', "1d57525d83ed3240ef0ff510bc3f8b194791fa5576c8a093980ce315c163d1c5", "ffff000000000000000000000000000000000000000000000000000000000001"),
    ('y', "693e8b212e3c9f121a2b6bc2da1ab7f4282443b8a4d1c211670a95a90fa601e5", "fffffffe00000000000000000000000000000000000000000000000000000000"),
    ('y', "cdb77ac78c8e8304bd03c80997c4e71872d27d650d3d7e913e26e5e8402aecdd", "00000000000000000000000000000000ffffffffffffffff0000000000000000"),
    ('y', "3e2cb59ed97dbde01252e99f0c3b1f31630ba948967df3e0c28fab5c57bc5da4", "0000000000000000ffffffffffffffff00000000000000000000000000000000"),
    ('y', "129f236149689b6c13526646e6a47f3784c08740fabc171bc95ddd73206c6952", "0000000000000000ffffffffffffffff0000000000000000ffffffffffffffff"),
    ('y', "cdb77ac78c8e8304bd03c80997c4e71872d27d650d3d7e913e26e5e8402aecdd", "00000000000000000000000000000000ffffffffffffffff0000000000000000"),
    ('y', "924b56142e32dbfdc6020439be0150b3f005d201bfdb827a317c09267282b382", "0000000000000000000000000000000100000000000000010000000000000000"),
    ('y', "e4c8d6057be744017d0785ebfac85219b5bbdb96d1421d37753e1c97647971d9", "0000000000000000000000000000000080000000000000000000000000000001"),
    ('y', "7fa891449cf77e7895b1118fbfa86464188d8410a8eaaa365c3a637546e9c64e", "00ff000000000000000000000000000000000000000000000000000000000002"),
    ('y', "7fa891449cf77e7895b1118fbfa86464188d8410a8eaaa365c3a637546e9c64e", "00ff000000000000000000000000000000000000000000000000000000000002"),
    ('y', "c58890d1427858896c44105dee2f3b491e089b8224d90bb3b8c48269d2fa3a88", "1234567890abcdef000000000000000000000000000000000000000000000000"),
    ('y', "343fa95b1594afb0e3e20138d688c5a184ce21cd969bf3de15a52b767afcb377", "1234567890abcdef00000000000000001234567890abcdef0000000000000000"),
    ('y', "8eaf07787dfbd68d3b81ed584cf74b7723f61af685df16ed1cdc74b00c8a3bf8", "000000000000000000000000000000005a5a5a5a000000000000000000000001"),
    ('y', "91379a1bc887ab7898e78afd1818800e57b49dc621eb292048917a940b3d9ad9", "0000000000000000000000010000000000000000000000000000000000000000"),
    ('y', "c24749d873ae9e02466090991ce2c1c3a264152686dcf9a46e38e37ebd4bfb0d", "00000000000000fffffffffffffffffffffffffffffffffffffffffffffffffd"),
    ('y', "c07e9097386145d2570a39b988a9c142a999bd186663149e4ce31e12c4e3ac0e", "7e0ab2ed31b1c27e976699cc6ed5d1bfe585552fac954ab592c9357d34ac0000"),
    ('y', "d6aace2388f450c03564496aeb291855857e19ac52f4a76b7ae2bfe336974fcf", "04673b757ff2e341810d2e304bcb6b2263db01fcaa7c314bf01dbf291a000000"),
    ('y', "38699cd6042ab6bc804e99cfeceb77b46115161a72b6cfba2325514b8679d763", "611575c2d67393d618ae013eaca91679443baac536891eeb6de2b33b00000000"),
    ('y', "d4a18c3f5c3517d80b883e09858bbe77a8498d965ce6146cd7bf30f11f4478bf", "88c9da8aafe673f6d6730839e1e48557ea190b2a58068a9d0000000000000000"),
    ('y', "47c49b7a4732e4ba1a609424bed498768cb559e08daa6567f43fa7d34be713da", "0a57af35b9b8163510b8fe223c11654988534206000000000000000000000000"),
    ('y', "ebc575308892ea372d06ca09c75b4890a027e86241bfef10ab07af66cd5c4bc4", "449c4ca23685156b89c80c4de9367ed900000000000000000000000000000000"),
    ('y', "c470844e38b444a213040523f56b1bbc94681d5e7b2665f91c8f877d9a51c1dc", "56befa395e3c536c415ac400d75470800000000000000000550d40ddc2557035"),
    ('y', "4bde44d623a5dd8edc38a64891d487f0374d1093430fb181d4280baa21beb529", "c78fec459a9e994c00000000000000003c35612e4a8d15d81d296588571ceeee"),
    ('y', "3ecc02dfe7047dba311f1bd819a18dd3faaf82118ed8b20aa0f536d009cb94c7", "0000000000000000947810d822a608bf7d2186d3e323ce54b7115c02f44d7e40"),
];
pub fn count() -> usize {
    TABLE.len()
}
/// The special point `i`.
pub fn point(i: usize) -> (Fe, Fe) {
    let (_, x, y) = TABLE[i % TABLE.len()];
    let f = |s: &str| Nat::from_be(&(0..32).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>()).arr::<4>();
    (f(x), f(y))
}
