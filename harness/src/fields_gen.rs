// generated by genfield.py
test_field!(F257, P257, 257u64, 9, 55, 1u64, 1u64, 71777214294589695u64, 3u64, 8, 1u64, 0u64, 128u64, 8, 3u64);
test_field!(F12289, P12289, 12289u64, 14, 50, 5664u64, 6606u64, 3435966895981867007u64, 859u64, 13, 3u64, 1u64, 6144u64, 12, 5627u64);
test_field!(F40961, P40961, 40961u64, 16, 48, 30416u64, 28871u64, 15632063024402046975u64, 9326u64, 15, 5u64, 2u64, 20480u64, 13, 18108u64);
test_field!(F62, P62, 4611685318347718657u64, 62, 2, 2800318676988u64, 1190404268312890832u64, 4611685318347718655u64, 14001593384940u64, 61, 1073741661u64, 536870830u64, 2305842659173859328u64, 32, 622496634104913356u64);
