## aspects of the ledger state each property needs
## M exact balances and supply; B the block log; A allowances and their expiration queue;
## D duplicate-detection records; INV an invariant carried by every request; TX recorded transactions
#alias M C02 C05 C06 C08 C12 C13 C14 C16 C17 C25 C27 C29 C31
#alias B C02 C03 C04 C05 C06 C08 C11 C13 C14 C16 C17 C24 C25 C26 C27 C28 C29
#alias H C03 C04
#alias A C01 C06 C07 C08 C09 C10 C13 C14 C15 C16 C25 C26 C31
#alias D C06 C08 C11 C12 C14 C15 C17 C25 C27 C31
#alias INV C01 C02 C03 C04 C06 C07 C08 C09 C10 C11 C13 C14 C15 C16 C17 C24 C25 C26 C31
#alias TX C05 C08 C11 C13 C14 C16 C17 C24 C25 C26 C27 C28 C29
#alias Q C01 C06 C07 C08 C09 C10 C13 C14 C15 C16 C25 C26 C31
## properties that say something about transfers, approvals, withdrawals, canister creation
#alias OPT C01 C05 C06 C07 C09 C11 C12 C24 C25 C26 C27 C31
#alias OPA C01 C06 C08 C09 C11 C12 C24 C25 C26 C27 C31
#alias OPW C01 C06 C07 C09 C10 C11 C12 C13 C15 C16 C24 C25 C27 C28 C31
#alias OPC C01 C06 C07 C09 C10 C11 C12 C14 C15 C16 C24 C25 C27 C31
