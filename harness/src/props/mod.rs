use crate::report::Run;
#[cfg(feature = "usual")]
pub mod balance;
pub mod cache;
pub mod config;
pub mod decode;
#[cfg(feature = "usual")]
pub mod export;
#[cfg(feature = "usual")]
pub mod files;
#[cfg(feature = "usual")]
pub mod hostile;
#[cfg(feature = "usual")]
pub mod jsons;
pub mod state;

pub fn find(id: &str) -> Option<fn(&mut Run)> {
    Some(match id {
        "D01" => decode::d01,
        "D02" => decode::d02,
        "D03" => decode::d03,
        "D04" => decode::d04,
        "D05" => decode::d05,
        #[cfg(feature = "usual")]
        "D06" => hostile::d06,
        #[cfg(feature = "usual")]
        "D07" => hostile::d07,
        #[cfg(feature = "usual")]
        "R01" => files::r01,
        #[cfg(feature = "usual")]
        "R02" => files::r02,
        #[cfg(feature = "usual")]
        "E01" => export::e01,
        #[cfg(feature = "usual")]
        "E02" => export::e02,
        #[cfg(feature = "usual")]
        "E03" => files::e03,
        #[cfg(feature = "usual")]
        "E04" => files::e04,
        #[cfg(feature = "usual")]
        "E05" => jsons::e05,
        #[cfg(feature = "usual")]
        "B01" => balance::b01,
        #[cfg(feature = "usual")]
        "B02" => balance::b02,
        "C01" => cache::c01,
        "C02" => cache::c02,
        "D08" => decode::d08,
        "D09" => decode::d09,
        #[cfg(feature = "usual")]
        "L01" => config::l01,
        "S01" => state::s01,
        "S02" => state::s02,
        "S03" => state::s03,
        "S04" => state::s04,
        "S05" => state::s05,
        "S06" => state::s06,
        "S07" => state::s07,
        "S08" => state::s08,
        _ => return None,
    })
}
