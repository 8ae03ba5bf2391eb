//! Reference for the one change the encoder may make: sequence sets in normal form.
use imap_types::{command::CommandBody, core::Vec1, search::SearchKey, sequence::SequenceSet};

use crate::{
    cogen::{ID_NIL, NORM, normalise_model},
    msg::Msg,
};

fn set(s: &mut SequenceSet) {
    if !NORM {
        return;
    }
    *s = SequenceSet(Vec1::try_from(normalise_model(s.0.as_ref())).unwrap());
}

fn key(k: &mut SearchKey<'static>) {
    match k {
        SearchKey::And(v) => {
            let mut x = v.clone().into_inner();
            x.iter_mut().for_each(key);
            *v = Vec1::try_from(x).unwrap();
        }
        SearchKey::Not(k) => key(k),
        SearchKey::Or(a, b) => {
            key(a);
            key(b);
        }
        SearchKey::SequenceSet(s) | SearchKey::Uid(s) => set(s),
        _ => {}
    }
}
fn keys(v: &mut Vec1<SearchKey<'static>>) {
    let mut x = v.clone().into_inner();
    x.iter_mut().for_each(key);
    *v = Vec1::try_from(x).unwrap();
}

pub fn normalise(mut m: Msg) -> Msg {
    if !NORM && !ID_NIL {
        return m;
    }
    match &mut m {
        Msg::Command(c) => match &mut c.body {
            CommandBody::Copy { sequence_set, .. }
            | CommandBody::Move { sequence_set, .. }
            | CommandBody::Fetch { sequence_set, .. }
            | CommandBody::Store { sequence_set, .. }
            | CommandBody::ExpungeUid { sequence_set } => set(sequence_set),
            CommandBody::Search { criteria, .. } => keys(criteria),
            CommandBody::Sort { search_criteria, .. } | CommandBody::Thread { search_criteria, .. } => keys(search_criteria),
            #[cfg(feature = "ext")]
            CommandBody::Select { parameters, .. } | CommandBody::Examine { parameters, .. } => {
                use imap_types::command::SelectParameter;
                for p in parameters {
                    if let SelectParameter::QResync {
                        known_uids,
                        seq_match_data,
                        ..
                    } = p
                    {
                        if let Some(k) = known_uids {
                            set(k);
                        }
                        if let Some((a, b)) = seq_match_data {
                            set(a);
                            set(b);
                        }
                    }
                }
            }
            #[cfg(all(feature = "ext", feature = "q_id_empty_to_nil"))]
            CommandBody::Id { parameters } if parameters.as_ref().is_some_and(|p| p.is_empty()) => *parameters = None,
            _ => {}
        },
        #[cfg(feature = "ext")]
        Msg::Greeting(g) => code(&mut g.code),
        #[cfg(feature = "ext")]
        Msg::Response(r) => {
            use imap_types::response::{CommandContinuationRequest, Data, Response, Status};
            match r {
                Response::Data(Data::Vanished { known_uids, .. }) => set(known_uids),
                #[cfg(feature = "q_id_empty_to_nil")]
                Response::Data(Data::Id { parameters }) if parameters.as_ref().is_some_and(|p| p.is_empty()) => *parameters = None,
                Response::Status(Status::Tagged(t)) => code(&mut t.body.code),
                Response::Status(Status::Untagged(t)) => code(&mut t.code),
                Response::Status(Status::Bye(t)) => code(&mut t.code),
                Response::CommandContinuationRequest(CommandContinuationRequest::Basic(b)) => {
                    if let Some(imap_types::response::Code::Modified(s)) = b.code() {
                        let mut c = Some(imap_types::response::Code::Modified(s.clone()));
                        code(&mut c);
                        *r = Response::CommandContinuationRequest(CommandContinuationRequest::basic(c, b.text().clone()).unwrap());
                    }
                }
                _ => {}
            }
        }
        _ => {}
    }
    m
}
#[cfg(feature = "ext")]
fn code(c: &mut Option<imap_types::response::Code<'static>>) {
    if let Some(imap_types::response::Code::Modified(s)) = c {
        set(s);
    }
}
