//! Pairs of names `data\\u{:x}.bin` that agree in part of what the tables keep of a name
//! (found by a birthday search with the library's own hash functions).
/// same first name hash, neighbouring start slots
pub const SAME_A: &[(u32, u32)] = &[(3448749, 26317099), (18657371, 19347379), (9126610, 19077144), (18908605, 20892264), (9199421, 14847035), (2502330, 12793053), (9231592, 23220367), (4815034, 22509175), (12805563, 14078498), (10203271, 18979191), (10029035, 30367494), (19044708, 28252466), (1915748, 9069782), (25001819, 30332561), (5475180, 28287566), (17589974, 26449617)];
/// same second name hash, neighbouring start slots
pub const SAME_B: &[(u32, u32)] = &[(5885811, 7423061), (151750, 21444710), (6500511, 9106535), (6191276, 16888879), (14941589, 27110151), (285024, 24751107), (6284858, 29532417), (5815534, 6970386), (11618317, 22972521), (1902328, 4544230), (5359805, 8563686), (8675953, 16204875), (6505204, 23937153), (12006938, 18820944), (15423395, 29547838), (2979252, 28509480)];
/// same start slot
pub const SAME_SLOT: &[(u32, u32)] = &[(14080071, 24209679), (8617634, 9406239), (1376702, 21028441), (19358284, 19845090), (9190076, 10685065), (4710042, 14892815), (18816091, 24825994), (18365131, 21938754), (2071166, 2340027), (9480410, 28618337), (15705780, 26426243), (15370253, 32581719), (7959277, 29431314), (417020, 26142608), (6700406, 27814387), (15430724, 29867095)];
/// same low part of the 64-bit hash
pub const SAME_LOW: &[(u32, u32)] = &[(7351330, 8321500), (2277011, 22183348), (14857573, 28687519), (4852781, 4852787), (17138763, 17406183), (15491925, 16254604), (4049524, 25736646), (3070745, 31793459), (16414806, 19049295), (1974877, 5227255), (23181757, 23181793), (11634046, 11634063), (4384566, 10682557), (9953432, 9957320), (17371475, 30803651), (3036714, 6207771)];
/// same high part of the 64-bit hash and same slot
pub const SAME_HIGH: &[(u32, u32)] = &[(4852779, 4852785), (11634037, 11634054), (4858584, 6965847), (27943518, 29405794), (6749679, 31813537), (11634038, 11634055), (32598653, 32598668), (9519091, 20159975), (4208315, 21220881), (2489135, 15030438), (17312407, 31924509), (14668637, 14668643), (9953421, 9957309), (32598649, 32598664), (11634042, 11634059), (11605781, 14565030)];
/// same 64-bit hash
pub const SAME_64: &[(u32, u32)] = &[(4852779, 4852785), (11634037, 11634054), (23773116, 23773122), (11634039, 11634056), (14668638, 14668644), (12004256, 12004350), (31336356, 31336401), (17589161, 17589236), (15724227, 15724287), (9953411, 9957299), (9953415, 9957303), (13485885, 13485891), (9953408, 9957296), (32598645, 32598660), (17405707, 17405713), (24252578, 24252604)];
