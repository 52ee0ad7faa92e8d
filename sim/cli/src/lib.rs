include!(concat!(env!("OUT_DIR"), "/cli_main.rs"));
