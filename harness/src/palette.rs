//! The colour names and their sRGB values: a copy of the palette at the pinned commit, compared
//! by hand with the definitions in xcolor (see DESIGN.md, C21).

pub static PALETTE: &[(&str, [u8; 3])] = &[
    ("red", [255, 0, 0]),
    ("green", [3, 255, 0]),
    ("blue", [0, 0, 255]),
    ("cyan", [0, 185, 242]),
    ("magenta", [251, 49, 153]),
    ("yellow", [255, 235, 61]),
    ("black", [0, 0, 0]),
    ("gray", [128, 128, 128]),
    ("white", [255, 255, 255]),
    ("darkgray", [64, 64, 64]),
    ("lightgray", [191, 191, 191]),
    ("brown", [191, 128, 63]),
    ("lime", [191, 255, 4]),
    ("olive", [159, 140, 24]),
    ("orange", [255, 128, 1]),
    ("pink", [255, 191, 191]),
    ("purple", [191, 1, 64]),
    ("teal", [0, 128, 128]),
    ("violet", [128, 0, 128]),
    ("Apricot", [255, 184, 130]),
    ("Aquamarine", [28, 191, 193]),
    ("Bittersweet", [208, 76, 23]),
    ("Black", [44, 46, 53]),
    ("Blue", [16, 38, 148]),
    ("BlueGreen", [20, 188, 188]),
    ("BlueViolet", [45, 52, 151]),
    ("BrickRed", [196, 49, 25]),
    ("Brown", [119, 34, 6]),
    ("BurntOrange", [255, 142, 39]),
    ("CadetBlue", [99, 114, 157]),
    ("CarnationPink", [252, 129, 188]),
    ("Cerulean", [0, 173, 231]),
    ("CornflowerBlue", [72, 187, 232]),
    ("Cyan", [0, 185, 242]),
    ("Dandelion", [255, 185, 76]),
    ("DarkOrchid", [158, 80, 143]),
    ("Emerald", [0, 177, 160]),
    ("ForestGreen", [18, 159, 87]),
    ("Fuchsia", [131, 55, 148]),
    ("Goldenrod", [255, 219, 87]),
    ("Gray", [155, 156, 159]),
    ("Green", [0, 171, 79]),
    ("GreenYellow", [225, 229, 123]),
    ("JungleGreen", [0, 177, 157]),
    ("Lavender", [253, 160, 204]),
    ("LimeGreen", [136, 201, 70]),
    ("Magenta", [251, 49, 153]),
    ("Mahogany", [180, 50, 30]),
    ("Maroon", [186, 49, 50]),
    ("Melon", [255, 157, 123]),
    ("MidnightBlue", [0, 104, 150]),
    ("Mulberry", [168, 62, 158]),
    ("NavyBlue", [8, 111, 189]),
    ("OliveGreen", [63, 126, 49]),
    ("Orange", [255, 124, 55]),
    ("OrangeRed", [255, 46, 88]),
    ("Orchid", [172, 114, 185]),
    ("Peach", [255, 147, 88]),
    ("Periwinkle", [106, 122, 191]),
    ("PineGreen", [5, 141, 116]),
    ("Plum", [135, 41, 150]),
    ("ProcessBlue", [0, 187, 242]),
    ("Purple", [143, 69, 163]),
    ("RawSienna", [158, 60, 14]),
    ("Red", [255, 46, 23]),
    ("RedOrange", [255, 92, 49]),
    ("RedViolet", [168, 44, 114]),
    ("Rhodamine", [252, 88, 170]),
    ("RoyalBlue", [0, 115, 192]),
    ("RoyalPurple", [72, 57, 158]),
    ("RubineRed", [253, 48, 136]),
    ("Salmon", [255, 144, 138]),
    ("SeaGreen", [71, 196, 160]),
    ("Sepia", [93, 22, 1]),
    ("SkyBlue", [80, 207, 226]),
    ("SpringGreen", [196, 220, 110]),
    ("Tan", [225, 157, 117]),
    ("TealBlue", [17, 184, 184]),
    ("Thistle", [222, 132, 191]),
    ("Turquoise", [16, 190, 210]),
    ("Violet", [61, 60, 159]),
    ("VioletRed", [252, 90, 171]),
    ("White", [255, 255, 255]),
    ("WildStrawberry", [255, 55, 105]),
    ("Yellow", [255, 235, 61]),
    ("YellowGreen", [146, 208, 116]),
    ("YellowOrange", [255, 159, 43]),
];
