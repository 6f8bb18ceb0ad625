PROP='C23'
FILE='tower/src/reconnect/mod.rs'
OLD="""                        Poll::Ready(Err(_)) => {
                            trace!("poll_ready; error");
                            self.state = State::Idle;
                        }
                    }
                }
            }
        }
"""
NEW="""                        Poll::Ready(Err(e)) => {
                            trace!("poll_ready; error");
                            self.state = State::Idle;
                            return Poll::Ready(Err(e.into()));
                        }
                    }
                }
            }
        }
"""
NEEDS="an established connection that fails its readiness poll"
BREAKS="the failure of an old connection is returned from readiness instead of a new connection being made"
MAIN='''use support::*;
use tokio_test::task;
use tower::reconnect::Reconnect;
use tower_service::Service;

fn main() {
    let (first, s1) = Ctl::new();
    let (second, s2) = Ctl::auto();
    first.ready(Err("broken pipe"));
    let mut svcs = vec![s2, s1];
    let mk = tower::service_fn(move |_: ()| futures::future::ready(Ok::<_, Error>(svcs.pop().unwrap())));
    let mut s = task::spawn(Reconnect::new(mk, ()));
    assert_eq!(is_ready(&mut s), Some(true), "no new connection was made");
    let _ = s.call("x".into());
    assert_eq!(second.calls(), vec!["x".to_string()]);
}
'''
