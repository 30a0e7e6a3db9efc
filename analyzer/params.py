"""Parameters of the named curves as published at safecurves.cr.yp.to: Edwards curves x^2 + y^2 = 1 + d x^2 y^2,
Montgomery curves y^2 = x^3 + a x^2 + x.  Every set is checked again on each run (curve equation, prime order,
Hasse interval, order annihilates the base point)."""

PUBLISHED = {
    "M-221": {
        "field": "e221_3", "prefix": "M221", "cofactor": 8, "a": 117050,
        "base_x": 0x4,
        "base_y": 0xf7acdd2a4939571d1cef14eca37c228e61dbff10707dc6c08c5056d,
        "order": 2**218 + 438651314700378199859927091142747,
    },
    "E222": {
        "field": "e222_117", "prefix": "E222", "cofactor": 4, "d": 160102,
        "base_x": 0x19b12bb156a389e55c9768c303316d07c23adab3736eb2bc3eb54e51,
        "base_y": 0x1c,
        "order": 2**220 - 181532584069648727485883454223169,
    },
    "Curve1174": {
        "field": "e251_9", "prefix": "CURVE1174", "cofactor": 4, "d": -1174,
        "base_x": 0x37fbb0cea308c479343aee7c029a190c021d96a492ecd6516123f27bce29eda,
        "base_y": 0x6b72f82d47fb7cc6656841169840e0c4fe2dee2af3f976ba4ccb1bf9b46360e,
        "order": 2**249 - 11332719920821432534773113288178349711,
    },
    "Curve25519": {
        "field": "e255_19", "prefix": "CURVE25519", "cofactor": 8, "a": 486662,
        "base_x": 0x9,
        "base_y": 0x20ae19a1b8a086b4e01edd2c7748d14c923d4d7e6d7c61b229e9c5a27eced3d9,
        "order": 2**252 + 27742317777372353535851937790883648493,
    },
    "E382": {
        "field": "e382_105", "prefix": "E382", "cofactor": 4, "d": -67254,
        "base_x": 0x196f8dd0eab20391e5f05be96e8d20ae68f840032b0b64352923bab85364841193517dbce8105398ebc0cc9470f79603,
        "base_y": 0x11,
        "order": 2**380 - 1030303207694556153926491950732314247062623204330168346855,
    },
    "M-383": {
        "field": "e383_187", "prefix": "M383", "cofactor": 8, "a": 2065150,
        "base_x": 0xc,
        "base_y": 0x1ec7ed04aaf834af310e304b2da0f328e7c165f0e8988abd3992861290f617aa1f1b2e7d0b6e332e969991b62555e77e,
        "order": 2**380 + 166236275931373516105219794935542153308039234455761613271,
    },
    "Curve383187": {
        "field": "e383_187", "prefix": "CURVE383187", "cofactor": 8, "a": 229969,
        "base_x": 0x5,
        "base_y": 0x1eebe07dc1871896732b12d5504a32370471965c7a11f2c89865f855ab3cbd7c224e3620c31af3370788457dd5ce46df,
        "order": 2**380 + 356080847217269887368687156533236720299699248977882517025,
    },
    "Curve41417": {
        "field": "e414_17", "prefix": "CURVE41417", "cofactor": 8, "d": 3617,
        "base_x": 0x1a334905141443300218c0631c326e5fcd46369f44c03ec7f57ff35498a4ab4d6d6ba111301a73faa8537c64c4fd3812f3cbc595,
        "base_y": 0x22,
        "order": 2**411 - 33364140863755142520810177694098385178984727200411208589594759,
    },
    "M-511": {
        "field": "e511_187", "prefix": "M511", "cofactor": 8, "a": 530438,
        "base_x": 0x5,
        "base_y": 0x2fbdc0ad8530803d28fdbad354bb488d32399ac1cf8f6e01ee3f96389b90c809422b9429e8a43dbf49308ac4455940abe9f1dbca542093a895e30a64af056fa5,
        "order": 2**508 + 10724754759635747624044531514068121842070756627434833028965540808827675062043,
    },
    "E521": {
        "field": "e521_1", "prefix": "E521", "cofactor": 4, "d": -376014,
        "base_x": 0x752cb45c48648b189df90cb2296b2878a3bfd9f42fc6c818ec8bf3c9c0c6203913f6ecc5ccc72434b1ae949d568fc99c6059d0fb13364838aa302a940a2f19ba6c,
        "base_y": 0xc,
        "order": 2**519 - 337554763258501705789107630418782636071904961214051226618635150085779108655765,
    },
}
