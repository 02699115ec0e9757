//! RSA keys of the harness (e = 65537), generated once; they protect nothing.
pub const WEAK_N: &str = "FAE4113490C48767AE63AC28DAA698881681DFAF45C8E11B14971F63977A7782D1305C6A9BC055914B41A4C83319D0B0FA1865D0BD1564CE0C14DE81EA9B5D93";
pub const WEAK_D: &str = "59C5A58A638A8ED0C08B959C80B03FBFE21DD2860AB85823B2786898E028C7FDE7B04DF4A31B718C8F0384DA5925406E5B972E3D2447514397DFAE4C1BA2FF21";
pub const STRONG_N: &str = "96A0CDE25CD3C116C8F9DBE5F37A9A90BEAC047CF755E68E7B161A481696CB637A5B5CC6B5CAEDBEB2BE6A75B2722ED7DC5D8281D48D7517DDD068779F5FB64D08C064E6C8E602D042A264FCCB698BD75788E682B99B6D2B815C3F2AB773C08BC09348CC53CF52376A1147AECE0720881F5F2D57777DFFA6F28CE868B8438A8462D04410B8C106E6655663A082453D84D0FBFDCFDE193DA87FE8404CE9B38B00B0D6E514D23EA953E8C81D247E9023AA24C611116E1F589E87555E6979EA9E6AEE1123E1F5A4DE5697191072F3307D45911DCBA409FE24D3807DD4591302F2393180A9FD78B2ABF6C3CFEE1FB7DE9D1F19B8035714FE78540B2D0202EF66FB2D";
pub const STRONG_D: &str = "87DD0977B8F50340330D33EC891E385680B595E2C611844156028CB8232FE6CA96ADDBD41C5BAAF00C37B6BCECB5134D7F26153657EB3407CFFA50903D7FCE6653937E2FB05BCF83DBE6B0A258339E802123898FB62CDC5E96730742D7701FE7AE4EEB25EA1EA170FC4A13D7375CB45A33B9DCA2FD53F809B4D3A639F6A26D4833AF635824FCF79FD53AB231883D75F2AE164B4C27C4E03DC845E5DEE29CE5949B2DD82AD30F52158E414BD0EAE73A481E054815F95618D5DAA08847797F86BBDE67DB3847A1DEFAC69FF2E0CF76F877F9B5DDF6FB97A56560BC7FB1C72FFD4DA8D4AE61E61F596B1A2C957600CDA0211A4C0EEA152E1BFBF37E594DB08C29FD";
