P="aquascope_front/src/plugin.rs"
CASES=[
("serve","aquascope_serve/src/main.rs","  server::serve(cfg);","  let _ = cfg;"),
("serve2","aquascope_serve/src/main.rs","  server::serve(cfg);",'  if env::args().len() < 2 { server::serve(cfg); }'),
("drv","aquascope_front/src/bin/aquascope-driver.rs","  rustc_plugin::driver_main(aquascope_front::AquascopePlugin);",""),
("cli","aquascope_front/src/bin/cargo-aquascope.rs","  rustc_plugin::cli_main(aquascope_front::AquascopePlugin);",""),
("mdb","mdbook-aquascope/src/main.rs","  mdbook_preprocessor_utils::main::<AquascopePreprocessorWrapper>()","  let _ = mdbook_preprocessor_utils::main::<AquascopePreprocessorWrapper>;"),
("p88",P,'.env("RUSTFLAGS", "-Awarnings")','.env("xRUSTFLAGS", "-Awarnings")'),
("p90",P,'exit(exit_status.code().unwrap_or(-1));',';'),
("p96",P,'exit(0);','exit(1);'),
("cargonew","aquascope_serve/src/container.rs",'panic!("`cargo new` failed {stderr}");',';'),
("port","aquascope_serve/src/main.rs",'8008','8009'),
]
